From 34acc0b86f05ca0383fb0bf7a4a76769fd542116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 01/42] fix: accept an empty csv file or a first row of another
 width when the first row is ignored

---
 pkg/input/csv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..7301ab0 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -182,8 +182,10 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	if csvInput.config.IgnoreFirstRow {
+		// The row being ignored, it may be missing or have any number of columns
 		_, err = csvReader.Read()
-		if err != nil {
+		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
+			_ = file.Close()
 			return nil, nil, err
 		}
 	}
-- 
2.43.0


From 0fb3a66f93b35af2f503d0439bd41bba9b74ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 02/42] fix: read XML records by position independently of what
 was read before

---
 pkg/input/xml.go | 70 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..8c87443 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -27,7 +27,6 @@ type Xml struct {
 	readerBuffer *bufio.Reader
 	readerLock   sync.Mutex
 	xmlFile      *os.File
-	xmlParser    *xmlquery.StreamParser
 	parsers      parser.List
 	watcher      *fsnotify.Watcher
 }
@@ -69,12 +68,7 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
-	xmlInput.xmlParser, err = xmlquery.CreateStreamParserWithOptions(
-		xmlInput.readerBuffer,
-		xmlParserOptions,
-		xmlInput.config.RecordXPath,
-	)
-	if err != nil {
+	if _, err := xmlInput.restartParser(); err != nil {
 		return nil, err
 	}
 
@@ -93,11 +87,7 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	xmlInput.readerLock.Lock()
 	defer xmlInput.readerLock.Unlock()
 
-	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, position); err != nil {
-		return nil, err
-	}
-
-	node, err := xmlInput.xmlParser.Read()
+	node, err := xmlInput.readNode(position)
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -107,6 +97,62 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	return NewXmlRecord(xmlInput.config, node, xmlInput.parsers, position)
 }
 
+// Creates a new parser, located at the beginning of the document
+func (xmlInput *Xml) restartParser() (*xmlquery.StreamParser, error) {
+	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, 0); err != nil {
+		return nil, err
+	}
+
+	return xmlquery.CreateStreamParserWithOptions(
+		xmlInput.readerBuffer,
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+}
+
+func (xmlInput *Xml) readNode(position record.Position) (*xmlquery.Node, error) {
+	// The state of the parser depends on everything it has read before,
+	// so it cannot be shared between several unordered positions
+	xmlParser, err := xmlInput.restartParser()
+	if err != nil {
+		return nil, err
+	}
+
+	if position == 0 {
+		return xmlParser.Read()
+	}
+
+	// Reading the first record, so that the parser knows the parent
+	// elements of the records before moving to another position
+	if _, err := xmlParser.Read(); err != nil {
+		return nil, err
+	}
+	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, position); err != nil {
+		return nil, err
+	}
+	if node, err := xmlParser.Read(); err == nil {
+		return node, nil
+	}
+
+	// The parent elements at this position are not the same than for the
+	// first record, so we have to read everything located before it
+	xmlParser, err = xmlInput.restartParser()
+	if err != nil {
+		return nil, err
+	}
+	for {
+		offset, err := util.GetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer)
+		if err != nil {
+			return nil, err
+		}
+
+		node, err := xmlParser.Read()
+		if err != nil || offset >= position {
+			return node, err
+		}
+	}
+}
+
 func (xmlInput *Xml) Size() (int64, error) {
 	fileInfo, err := os.Stat(xmlInput.config.Path)
 	if err != nil {
-- 
2.43.0


From e7b3877cd28c296e749a94609994e3f5002c064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 03/42] fix: report an xpath that cannot be evaluated on a
 record instead of crashing

---
 pkg/input/xml_record.go | 65 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..6a668cb 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -86,21 +86,54 @@ func (record *XmlRecord) nodeIteratorToObject(
 	return values, nil
 }
 
+// Gets all the nodes selected by the property's xpath
+func (record *XmlRecord) selectNodes(
+	node *xmlquery.Node,
+	config *XmlPropertyConfig,
+) (nodes []*xmlquery.Node, err error) {
+	defer record.recoverXpathPanic(config, &err)
+
+	return xmlquery.QuerySelectorAll(node, config.CompiledXPath), nil
+}
+
+func (record *XmlRecord) evaluate(
+	node *xmlquery.Node,
+	config *XmlPropertyConfig,
+) (result interface{}, err error) {
+	defer record.recoverXpathPanic(config, &err)
+
+	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node)), nil
+}
+
+// The xpath library panics when a value does not have the type expected by a function
+func (record *XmlRecord) recoverXpathPanic(config *XmlPropertyConfig, err *error) {
+	if recovered := recover(); recovered != nil {
+		*err = record.xpathError(config, fmt.Sprintf("%v", recovered))
+	}
+}
+
 func (record *XmlRecord) getAllValues(
 	node *xmlquery.Node,
 	currentConfig *XmlPropertyConfig,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.nodeIteratorToArray(nodes, currentConfig)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result, err := record.evaluate(node, currentConfig)
+	if err != nil {
+		return nil, err
+	}
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -125,7 +158,10 @@ func (record *XmlRecord) getAllValues(
 
 // Converts a node iterator result into a string containing the raw XmlRecord,
 // to facilitate debugging and setting-up the configuration
-func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, nodeIterator *xpath.NodeIterator) (interface{}, error) {
+func (record *XmlRecord) handleNodeIteratorValue(config *XmlPropertyConfig, nodeIterator *xpath.NodeIterator) (value interface{}, err error) {
+	// The nodes are only evaluated while iterating on them
+	defer record.recoverXpathPanic(config, &err)
+
 	parser, parserExists := record.parsers[config.Parser]
 	if !parserExists {
 		return nil, fmt.Errorf("The parser '%v' was not found.", config.Parser)
@@ -268,16 +304,23 @@ func (record *XmlRecord) getSubValue(
 	path []string,
 ) (interface{}, error) {
 	if currentConfig.Type == XmlInputPropertyTypeArray {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.getSubArrayValue(nodes, currentConfig, path)
 	} else if currentConfig.Type == XmlInputPropertyTypeObject {
-		nodes := xmlquery.QuerySelectorAll(node, currentConfig.CompiledXPath)
+		nodes, err := record.selectNodes(node, currentConfig)
+		if err != nil {
+			return nil, err
+		}
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result, err := record.evaluate(node, currentConfig)
+	if err != nil {
+		return nil, err
+	}
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From 3a92cebab84036481e3f82c1d1ea1ed2ac37076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 04/42] fix: allow the items of an XML array to be attributes

---
 pkg/input/xml_record.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 6a668cb..d9164b9 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -93,7 +93,16 @@ func (record *XmlRecord) selectNodes(
 ) (nodes []*xmlquery.Node, err error) {
 	defer record.recoverXpathPanic(config, &err)
 
-	return xmlquery.QuerySelectorAll(node, config.CompiledXPath), nil
+	nodes = xmlquery.QuerySelectorAll(node, config.CompiledXPath)
+	for _, node := range nodes {
+		// The attributes are returned as temporary nodes, having a type that
+		// cannot be used as the root of the xpath of a sub-property
+		if node.Type == xmlquery.AttributeNode {
+			node.Type = xmlquery.ElementNode
+		}
+	}
+
+	return nodes, nil
 }
 
 func (record *XmlRecord) evaluate(
-- 
2.43.0


From 3363fafb539b4776941fb85763f390298de54990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 05/42] fix: report the unexpected closing brackets of a json
 file instead of ignoring what follows

---
 pkg/input/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..3e8c7ec 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -127,9 +127,9 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 	jsonDecoder := json.NewDecoder(reader)
 
 	iterator := func() (record.Record, error) {
-		if !jsonDecoder.More() {
-			return nil, nil
-		}
+		// Moves to the beginning of the next value. It's result only tells about
+		// the end of arrays and objects, not whether the file contains more data.
+		_ = jsonDecoder.More()
 
 		position := jsonDecoder.InputOffset()
 
-- 
2.43.0


From 85f65cf628a72a52f0302697c27a846da6be635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 06/42] fix: report a null json document as an error

---
 pkg/input/json.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 3e8c7ec..2f619b6 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/fsnotify/fsnotify"
 	"github.com/rodb-io/rodb/pkg/input/record"
@@ -75,8 +76,8 @@ func (jsonInput *Json) Get(position record.Position) (record.Record, error) {
 	// it's internal state when seeking otherwise
 	jsonDecoder := json.NewDecoder(jsonInput.reader)
 
-	var data map[string]interface{}
-	if err := jsonDecoder.Decode(&data); err != nil {
+	data, err := jsonInput.decode(jsonDecoder)
+	if err != nil {
 		return nil, fmt.Errorf("Cannot read json data: %w", err)
 	}
 
@@ -87,6 +88,20 @@ func (jsonInput *Json) Get(position record.Position) (record.Record, error) {
 	), nil
 }
 
+func (jsonInput *Json) decode(jsonDecoder *json.Decoder) (map[string]interface{}, error) {
+	var data map[string]interface{}
+	if err := jsonDecoder.Decode(&data); err != nil {
+		return nil, err
+	}
+
+	// A null value does not trigger any error when decoding it
+	if data == nil {
+		return nil, errors.New("Expected an object, got null")
+	}
+
+	return data, nil
+}
+
 func (jsonInput *Json) Size() (int64, error) {
 	fileInfo, err := os.Stat(jsonInput.config.Path)
 	if err != nil {
@@ -133,8 +148,8 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 
 		position := jsonDecoder.InputOffset()
 
-		var data map[string]interface{}
-		if err := jsonDecoder.Decode(&data); err == io.EOF {
+		data, err := jsonInput.decode(jsonDecoder)
+		if err == io.EOF {
 			return nil, nil
 		} else if err != nil {
 			return nil, fmt.Errorf("Cannot read json data: %w", err)
-- 
2.43.0


From 68ed8a59a0753c7db351b3fa858ac7bbd8d5f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 07/42] fix: report numbers that do not fit in an integer
 instead of storing an arbitrary one

---
 pkg/input/xml_record.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index d9164b9..26d589a 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -6,6 +6,7 @@ import (
 	"github.com/antchfx/xpath"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -236,6 +237,11 @@ func (record *XmlRecord) handleNumericValue(config *XmlPropertyConfig, value flo
 	if _, isFloatParser := parser.(*parserPackage.Float); isFloatParser {
 		return value, nil
 	} else if _, isIntegerParser := parser.(*parserPackage.Integer); isIntegerParser {
+		// -2^63 and 2^63 are the bounds of the 64-bits integers. The condition is false for NaN
+		if !(value >= math.MinInt64 && value < -math.MinInt64) {
+			return nil, record.xpathError(config, fmt.Sprintf("the numeric value %v does not fit in an integer", value))
+		}
+
 		return int64(value), nil
 	} else {
 		return nil, record.xpathError(config, fmt.Sprintf("got a numeric value, but the property does not have a numeric parser"))
-- 
2.43.0


From ab3593027bdb266ba6b32a2fc8b1f67b3a627fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 08/42] fix: treat a negative array index in a path as an
 absent item instead of crashing

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 26d589a..7ea4649 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -276,7 +276,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From 82e833bf7403b7d2338571fa2ba06bd8fd2bef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 09/42] fix: index the items of an array property once each
 instead of crashing on the array

---
 pkg/index/map.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..55448e9 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -101,11 +101,21 @@ func (mapIndex *Map) addValueToIndex(
 	position record.Position,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
+		alreadyIndexedValues := make(map[interface{}]bool)
 		for _, valueArrayValue := range valueArray {
+			if valueArrayValue == nil || reflect.TypeOf(valueArrayValue).Comparable() {
+				if alreadyIndexedValues[valueArrayValue] {
+					continue
+				}
+				alreadyIndexedValues[valueArrayValue] = true
+			}
+
 			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
-- 
2.43.0


From e76e8190ecca0d4e031fe29cc50924c58ada729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 10/42] fix: do not crash when filtering by an array or an
 object

---
 pkg/index/map.go  | 4 ++++
 pkg/index/noop.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 55448e9..df4507e 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -151,6 +151,10 @@ func (mapIndex *Map) GetRecordPositions(
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
 
+		if filter != nil && !reflect.TypeOf(filter).Comparable() {
+			return nil, fmt.Errorf("Cannot filter the property '%v' by an array or an object.", propertyName)
+		}
+
 		indexedValues, foundIndexedValues := mapIndex.index[propertyName]
 		if !foundIndexedValues {
 			return record.EmptyIterator, nil
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..05184af 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -70,7 +70,8 @@ func (noop *Noop) GetRecordPositions(
 				}
 
 				value = reflect.ValueOf(value).Interface()
-				if value != filter {
+				// The arrays and objects cannot be compared with an operator
+				if !reflect.DeepEqual(value, filter) {
 					matches = false
 					break
 				}
-- 
2.43.0


From 64a61b01f4dd6452ec2e12929912f912f004732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 11/42] fix: index the items of an array of strings in the
 wildcard index instead of failing

---
 pkg/index/wildcard.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..035575f 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From 7e68c97fc0d337ec93deb1eb7b3cc33cb84bad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 12/42] fix: report the errors occurring while reading the
 results of an sqlite or fts5 search, and release its connection

---
 pkg/index/fts5.go             | 20 +------------------
 pkg/index/sqlite.go           | 20 +------------------
 pkg/index/sqlite/positions.go | 36 +++++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 38 deletions(-)
 create mode 100644 pkg/index/sqlite/positions.go

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..4260c1f 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -235,29 +235,11 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	rows, err := sqlite.db.Query(`
+	return sqlitePackage.QueryPositions(sqlite.db, `
 		SELECT "__offset"
 		FROM `+tableIdentifier+`
 		WHERE `+tableIdentifier+` MATCH ?
 	`, filters["match"])
-	if err != nil {
-		return nil, err
-	}
-
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
-
-		return nil, nil
-	}, nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..043fd21 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -245,29 +245,11 @@ func (sqlite *Sqlite) GetRecordPositions(
 		values = append(values, filter)
 	}
 
-	rows, err := sqlite.db.Query(`
+	return sqlitePackage.QueryPositions(sqlite.db, `
 		SELECT "offset"
 		FROM `+tableIdentifier+`
 		WHERE `+strings.Join(clauses, " AND ")+`;
 	`, values...)
-	if err != nil {
-		return nil, err
-	}
-
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
-
-		return nil, nil
-	}, nil
 }
 
 func (sqlite *Sqlite) Close() error {
diff --git a/pkg/index/sqlite/positions.go b/pkg/index/sqlite/positions.go
new file mode 100644
index 0000000..5a00f30
--- /dev/null
+++ b/pkg/index/sqlite/positions.go
@@ -0,0 +1,36 @@
+package sqlite
+
+import (
+	"database/sql"
+	"github.com/rodb-io/rodb/pkg/input/record"
+)
+
+// Gets all the positions returned by the given query.
+// The whole result is fetched immediately, because a part of the errors are only
+// reported while reading it, and because the connection stays busy until it ends.
+func QueryPositions(
+	db *sql.DB,
+	query string,
+	arguments ...interface{},
+) (record.PositionIterator, error) {
+	rows, err := db.Query(query, arguments...)
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position int64
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
+		}
+
+		positions = append(positions, record.Position(position))
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
+}
-- 
2.43.0


From 3243b9dcc28f357e6c546bac08b912057a19293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 13/42] fix: use a single connection per sqlite index, so that
 in-memory databases work

---
 pkg/index/sqlite/open.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..48827b1 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -13,6 +13,10 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// The settings below only apply to the current connection, and each
+	// connection to an in-memory database would open a different one
+	db.SetMaxOpenConns(1)
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 82d87ef3a1282f11e893f5dc72745e4cb829e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 14/42] fix: accept the documented rtrim collation, which was
 misspelled

---
 pkg/index/sqlite_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..1990465 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From 9b9585e5098e11dd488d133c4d786fc3598410d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 15/42] fix: do not crash when loading a wildcard index whose
 header is damaged

---
 pkg/index/wildcard/metadata.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..34c3eea 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -156,11 +156,14 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+	// The count cannot be trusted to allocate memory, because this may not be a valid index
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var rootNodeOffset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &rootNodeOffset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, rootNodeOffset)
 	}
 
 	return nil
-- 
2.43.0


From 9b910f86ff8fdf2ee0d04e6c00cca835293234dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 16/42] fix: reject an existing sqlite or fts5 index of another
 type or with other properties

---
 pkg/index/fts5.go         |  5 ++++
 pkg/index/sqlite.go       |  9 ++++++
 pkg/index/sqlite/table.go | 61 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+)
 create mode 100644 pkg/index/sqlite/table.go

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 4260c1f..bfc4ad1 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -55,6 +55,11 @@ func NewFts5(
 		if err := metadata.AssertValid(sqlite.input); err != nil {
 			return nil, err
 		}
+
+		tableName := fmt.Sprintf("rodb_%v_index", sqlite.config.Name)
+		if err := sqlitePackage.AssertFts5Table(sqlite.db, tableName); err != nil {
+			return nil, err
+		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 043fd21..0958298 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -53,6 +53,15 @@ func NewSqlite(
 		if err := metadata.AssertValid(sqlite.input); err != nil {
 			return nil, err
 		}
+
+		columnNames := []string{"offset"}
+		for _, property := range sqlite.config.Properties {
+			columnNames = append(columnNames, fmt.Sprintf("property_%v", property.Name))
+		}
+		tableName := fmt.Sprintf("rodb_%v_index", sqlite.config.Name)
+		if err := sqlitePackage.AssertTableColumns(sqlite.db, tableName, columnNames); err != nil {
+			return nil, err
+		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
diff --git a/pkg/index/sqlite/table.go b/pkg/index/sqlite/table.go
new file mode 100644
index 0000000..3bbe122
--- /dev/null
+++ b/pkg/index/sqlite/table.go
@@ -0,0 +1,61 @@
+package sqlite
+
+import (
+	"database/sql"
+	"fmt"
+)
+
+// Validates that the table of an existing index has exactly the given columns
+func AssertTableColumns(db *sql.DB, tableName string, columnNames []string) error {
+	missingColumns := make(map[string]bool)
+	for _, columnName := range columnNames {
+		missingColumns[columnName] = true
+	}
+
+	rows, err := db.Query(`SELECT "name" FROM pragma_table_info(?);`, tableName)
+	if err != nil {
+		return err
+	}
+	defer rows.Close()
+
+	for rows.Next() {
+		var columnName string
+		if err := rows.Scan(&columnName); err != nil {
+			return err
+		}
+
+		if !missingColumns[columnName] {
+			return fmt.Errorf("The configured index type or properties does not match the existing index: it has a column '%v'.", columnName)
+		}
+		delete(missingColumns, columnName)
+	}
+	if err := rows.Err(); err != nil {
+		return err
+	}
+
+	for columnName := range missingColumns {
+		return fmt.Errorf("The configured index type or properties does not match the existing index: it has no column '%v'.", columnName)
+	}
+
+	return nil
+}
+
+// Validates that the table of an existing index is a fts5 table
+func AssertFts5Table(db *sql.DB, tableName string) error {
+	var count int64
+	row := db.QueryRow(`
+		SELECT COUNT(*)
+		FROM sqlite_master
+		WHERE type = 'table'
+		AND name = ?
+		AND sql LIKE 'CREATE VIRTUAL TABLE%USING fts5%';
+	`, tableName)
+	if err := row.Scan(&count); err != nil {
+		return err
+	}
+	if count == 0 {
+		return fmt.Errorf("The configured index type does not match the existing index.")
+	}
+
+	return nil
+}
-- 
2.43.0


From 2b18eb6d1b364bf360bee4d3b8bbc9ea22f27e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 17/42] fix: write the whole wildcard index before marking it
 as completed

---
 pkg/index/wildcard.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 035575f..88bd1bb 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,11 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The whole index must have been written before it gets marked as completed
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
-- 
2.43.0


From 608f4118a3381a215c545f2bdb59760268c408b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 18/42] fix: apply all the parameters when several of them use
 the same property of the same index

---
 pkg/output/json_array.go  |  8 +----
 pkg/output/json_common.go | 62 +++++++++++++++++++++++++++++++++++----
 pkg/output/json_object.go |  8 +----
 3 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..33a5bbf 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -188,13 +188,7 @@ func (jsonArray *JsonArray) getFiltersPerIndex(params map[string]string) (map[st
 			return nil, err
 		}
 
-		indexFilters, indexFiltersExists := filtersPerIndex[paramConfig.Index]
-		if !indexFiltersExists {
-			indexFilters = make(map[string]interface{})
-			filtersPerIndex[paramConfig.Index] = indexFilters
-		}
-
-		indexFilters[paramConfig.Property] = parsedParamValue
+		addFilter(filtersPerIndex, paramConfig.Index, paramConfig.Property, parsedParamValue)
 	}
 
 	return filtersPerIndex, nil
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..7ac38bd 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -52,6 +52,56 @@ func getRelationshipFiltersPerIndex(
 	return filtersPerIndex, nil
 }
 
+// The values of several parameters using the same property of the same index
+type multipleFilterValues []interface{}
+
+// Adds a filter to the given list, which will have to be matched
+// in addition to those already existing for the same property
+func addFilter(
+	filtersPerIndex map[string]map[string]interface{},
+	indexName string,
+	property string,
+	value interface{},
+) {
+	indexFilters, indexFiltersExists := filtersPerIndex[indexName]
+	if !indexFiltersExists {
+		indexFilters = make(map[string]interface{})
+		filtersPerIndex[indexName] = indexFilters
+	}
+
+	existingValue, valueExists := indexFilters[property]
+	if !valueExists {
+		indexFilters[property] = value
+	} else if existingValues, hasSeveralValues := existingValue.(multipleFilterValues); hasSeveralValues {
+		indexFilters[property] = append(existingValues, value)
+	} else {
+		indexFilters[property] = multipleFilterValues{existingValue, value}
+	}
+}
+
+// An index only handles one value per property, so additional
+// values have to be searched separately
+func splitMultipleFilterValues(filters map[string]interface{}) []map[string]interface{} {
+	singleFilters := make(map[string]interface{})
+	result := []map[string]interface{}{singleFilters}
+	for property, value := range filters {
+		values, hasSeveralValues := value.(multipleFilterValues)
+		if !hasSeveralValues {
+			singleFilters[property] = value
+			continue
+		}
+
+		singleFilters[property] = values[0]
+		for _, additionalValue := range values[1:] {
+			result = append(result, map[string]interface{}{
+				property: additionalValue,
+			})
+		}
+	}
+
+	return result
+}
+
 func getFilteredRecordPositionsPerIndex(
 	defaultIndex indexPackage.Index,
 	indexes indexPackage.List,
@@ -77,12 +127,14 @@ func getFilteredRecordPositionsPerIndex(
 			return nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
 		}
 
-		iteratorForThisIndex, err := index.GetRecordPositions(input, filters)
-		if err != nil {
-			return nil, err
-		}
+		for _, singleFilters := range splitMultipleFilterValues(filters) {
+			iteratorForThisIndex, err := index.GetRecordPositions(input, singleFilters)
+			if err != nil {
+				return nil, err
+			}
 
-		iterators = append(iterators, iteratorForThisIndex)
+			iterators = append(iterators, iteratorForThisIndex)
+		}
 	}
 
 	return iterators, nil
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..10f5ef8 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -121,17 +121,11 @@ func (jsonObject *JsonObject) Handle(
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
 	filtersPerIndex := map[string]map[string]interface{}{}
 	for paramName, param := range jsonObject.config.Parameters {
-		indexFilters, indexFiltersExists := filtersPerIndex[param.Index]
-		if !indexFiltersExists {
-			indexFilters = make(map[string]interface{})
-			filtersPerIndex[param.Index] = indexFilters
-		}
-
 		paramValue, err := jsonObject.paramParsers[paramName].Parse(params[paramName])
 		if err != nil {
 			return nil, err
 		}
-		indexFilters[param.Property] = paramValue
+		addFilter(filtersPerIndex, param.Index, param.Property, paramValue)
 	}
 
 	return filtersPerIndex, nil
-- 
2.43.0


From 0b413753c870428cfed5f02143f96c1d96655d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 19/42] fix: do not return an empty list when the limit does
 not fit in a signed integer

---
 pkg/output/json_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 33a5bbf..2ddc5f8 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -108,7 +108,7 @@ func (jsonArray *JsonArray) Handle(
 	}
 
 	rowsData := make([]interface{}, 0)
-	for len(rowsData) < int(limit) {
+	for uint(len(rowsData)) < limit {
 		position, err := nextPosition()
 		if err != nil {
 			return sendError(err)
-- 
2.43.0


From ffafed608aae413ae82d3e670644aa578300014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 20/42] fix: do not use a relationship of the same name in
 place of the property that another one matches

---
 pkg/output/json_common.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 7ac38bd..e61f313 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -148,6 +148,9 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// Not added to the data until the end, because a relationship can have
+	// the same name as a property required to match another one
+	relationshipsData := make(map[string]interface{}, len(relationships))
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			data,
@@ -240,16 +243,20 @@ func loadRelationships(
 		}
 
 		if relationshipConfig.IsArray {
-			data[relationshipName] = relationshipItems
+			relationshipsData[relationshipName] = relationshipItems
 		} else {
 			if len(relationshipItems) == 0 {
-				data[relationshipName] = nil
+				relationshipsData[relationshipName] = nil
 			} else {
-				data[relationshipName] = relationshipItems[0]
+				relationshipsData[relationshipName] = relationshipItems[0]
 			}
 		}
 	}
 
+	for relationshipName, relationshipData := range relationshipsData {
+		data[relationshipName] = relationshipData
+	}
+
 	return data, nil
 }
 
-- 
2.43.0


From 51eb519c81795fe3afb4c48aa893f08357b8d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 21/42] fix: match the literal parts of a route path as they
 are written, not as a regular expression

---
 pkg/service/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From 194620af8a28ba15a23774b9ba595316c2a3f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 22/42] fix: match strings containing line breaks in route
 paths

---
 pkg/parser/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..53725ab 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -41,7 +41,7 @@ func (str *String) Primitive() bool {
 }
 
 func (str *String) GetRegexpPattern() string {
-	return ".+"
+	return "(?s:.+)"
 }
 
 func (str *String) Parse(value string) (interface{}, error) {
-- 
2.43.0


From cf050cfe0e09e235d69093678ad3b79c73db63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 23/42] fix: bind the route parameters following a float or
 boolean one to the right values

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..ed12867 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -34,7 +34,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
-- 
2.43.0


From dfeb5ad863d594a2542fc4173d908f94eb53a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 24/42] fix: match the numbers written with dashes as ignored
 characters, or a long decimal separator, in route paths

---
 pkg/parser/float.go   | 5 +++--
 pkg/parser/integer.go | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index ed12867..8c189fe 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -29,12 +29,13 @@ func (float *Float) Primitive() bool {
 
 func (float *Float) GetRegexpPattern() string {
 	separator := regexp.QuoteMeta(float.config.DecimalSeparator)
-	ignore := regexp.QuoteMeta(float.config.IgnoreCharacters)
+	// QuoteMeta does not escape the dashes, which are special inside of a class
+	ignore := strings.ReplaceAll(regexp.QuoteMeta(float.config.IgnoreCharacters), "-", "\\-")
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:" + separator + "[0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/integer.go b/pkg/parser/integer.go
index b202783..c9e25fc 100644
--- a/pkg/parser/integer.go
+++ b/pkg/parser/integer.go
@@ -4,6 +4,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/util"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type Integer struct {
@@ -27,7 +28,8 @@ func (integer *Integer) Primitive() bool {
 }
 
 func (integer *Integer) GetRegexpPattern() string {
-	ignore := regexp.QuoteMeta(integer.config.IgnoreCharacters)
+	// QuoteMeta does not escape the dashes, which are special inside of a class
+	ignore := strings.ReplaceAll(regexp.QuoteMeta(integer.config.IgnoreCharacters), "-", "\\-")
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
-- 
2.43.0


From 3a423a0829c393aa59f40eeb913f3f52be506e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 25/42] fix: answer with an error when a record cannot be
 encoded in JSON

---
 pkg/output/json_array.go  | 11 ++++++++++-
 pkg/output/json_object.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 2ddc5f8..c870a12 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -132,7 +133,15 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	// Encoding everything before sending anything, because
+	// it is not possible to send an error afterwards
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(rowsData); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 10f5ef8..0830003 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -115,7 +116,15 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	// Encoding everything before sending anything, because
+	// it is not possible to send an error afterwards
+	response := &bytes.Buffer{}
+	if err := json.NewEncoder(response).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err = response.WriteTo(sendSucces())
+	return err
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From eda0bcb4cdc8b853913bcd1754c9e46daa63635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 26/42] fix: do not share the decoder of a charset between
 concurrent requests

---
 pkg/parser/string.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 53725ab..df2f063 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -9,26 +9,25 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var charsetEncoding encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		charsetEncoding, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-
-		decoder = encoding.NewDecoder()
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: charsetEncoding,
 	}, nil
 }
 
@@ -46,7 +45,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// A decoder has a state, and thus cannot be shared between concurrent calls
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 1d9f56b25d166c02bbbb3755ea482b537c50f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 27/42] fix: do not leave the input files open after each
 request which does not read them until the end

---
 pkg/input/csv.go  | 21 +++++++++++++--------
 pkg/input/json.go | 10 +++++-----
 pkg/input/xml.go  | 12 +++++-------
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 7301ab0..15eae5b 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -10,6 +10,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -161,7 +162,12 @@ func (csvInput *Csv) open() (io.ReadSeeker, *bufio.Reader, *csv.Reader, *os.File
 	}
 
 	reader := io.ReadSeeker(file)
+	readerBuffer, csvReader := csvInput.newCsvReader(reader)
 
+	return reader, readerBuffer, csvReader, file, nil
+}
+
+func (csvInput *Csv) newCsvReader(reader io.Reader) (*bufio.Reader, *csv.Reader) {
 	// Giving a buffer to the csv reader will prevent it from creating
 	// it's own buffer, since we need to control it when seeking
 	// the positions (this condition is managed by bufio's constructor)
@@ -172,20 +178,19 @@ func (csvInput *Csv) open() (io.ReadSeeker, *bufio.Reader, *csv.Reader, *os.File
 	csvReader.FieldsPerRecord = len(csvInput.config.Columns)
 	csvReader.ReuseRecord = false
 
-	return reader, readerBuffer, csvReader, file, nil
+	return readerBuffer, csvReader
 }
 
 func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
-	reader, readerBuffer, csvReader, file, err := csvInput.open()
-	if err != nil {
-		return nil, nil, err
-	}
+	// Not opening the file again, because nothing would close it
+	// when the iterator is not used until the end
+	reader := io.NewSectionReader(csvInput.csvFile, 0, math.MaxInt64)
+	readerBuffer, csvReader := csvInput.newCsvReader(reader)
 
 	if csvInput.config.IgnoreFirstRow {
 		// The row being ignored, it may be missing or have any number of columns
-		_, err = csvReader.Read()
+		_, err := csvReader.Read()
 		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
-			_ = file.Close()
 			return nil, nil, err
 		}
 	}
@@ -216,7 +221,7 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	end := func() error {
-		return file.Close()
+		return nil
 	}
 
 	return iterator, end, nil
diff --git a/pkg/input/json.go b/pkg/input/json.go
index 2f619b6..082e4be 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -8,6 +8,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/input/record"
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -132,10 +133,9 @@ func (jsonInput *Json) open() (io.ReadSeeker, *os.File, error) {
 }
 
 func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
-	reader, file, err := jsonInput.open()
-	if err != nil {
-		return nil, nil, err
-	}
+	// Not opening the file again, because nothing would close it
+	// when the iterator is not used until the end
+	reader := io.NewSectionReader(jsonInput.jsonFile, 0, math.MaxInt64)
 
 	// Creating a new decoder each time because we cannot reset
 	// it's internal state when seeking otherwise
@@ -165,7 +165,7 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	end := func() error {
-		return file.Close()
+		return nil
 	}
 
 	return iterator, end, nil
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 8c87443..e6998b3 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -10,6 +10,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"time"
@@ -172,12 +173,9 @@ func (xmlInput *Xml) ModTime() (time.Time, error) {
 }
 
 func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
-	file, err := os.Open(xmlInput.config.Path)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	reader := io.ReadSeeker(file)
+	// Not opening the file again, because nothing would close it
+	// when the iterator is not used until the end
+	reader := io.NewSectionReader(xmlInput.xmlFile, 0, math.MaxInt64)
 	readerBuffer := bufio.NewReader(reader)
 
 	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
@@ -216,7 +214,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	end := func() error {
-		return file.Close()
+		return nil
 	}
 
 	return iterator, end, nil
-- 
2.43.0


From ca564b4b536f412d365759033059cf283fc438f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 28/42] fix: report empty items of the configuration instead of
 crashing

---
 pkg/config/config.go              | 25 ++++++++++++++++++++-----
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..149a176 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -65,35 +65,50 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		Outputs:  map[string]output.Config{},
 	}
 
-	for _, parser := range parsedConfig.Parsers {
+	for parserIndex, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, fmt.Errorf("parsers[%v] is empty.", parserIndex)
+		}
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
 		}
 		config.Parsers[name] = parser.parser
 	}
-	for _, input := range parsedConfig.Inputs {
+	for inputIndex, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, fmt.Errorf("inputs[%v] is empty.", inputIndex)
+		}
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
 		}
 		config.Inputs[name] = input.input
 	}
-	for _, index := range parsedConfig.Indexes {
+	for indexIndex, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, fmt.Errorf("indexes[%v] is empty.", indexIndex)
+		}
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
 		}
 		config.Indexes[name] = index.index
 	}
-	for _, service := range parsedConfig.Services {
+	for serviceIndex, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, fmt.Errorf("services[%v] is empty.", serviceIndex)
+		}
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
 		}
 		config.Services[name] = service.service
 	}
-	for _, output := range parsedConfig.Outputs {
+	for outputIndex, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, fmt.Errorf("outputs[%v] is empty.", outputIndex)
+		}
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 1990465..6da16f4 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..d4c19fc 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -98,6 +98,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..62a0d5a 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..289ee15 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -97,6 +97,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..3c8771d 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..679ef3b 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..2e88612 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -128,6 +128,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("this item is empty")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From bc5758f199a06d85217885bb883bac54de6d9198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 29/42] fix: report the paths which cannot be checked instead
 of crashing

---
 pkg/input/csv_config.go    | 3 +++
 pkg/input/json_config.go   | 4 ++++
 pkg/input/xml_config.go    | 3 +++
 pkg/service/http_config.go | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index d4c19fc..b793d3f 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -68,6 +68,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot check the csv file '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..bcde7f2 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -40,6 +41,9 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot check the json file '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 289ee15..08e0c81 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -71,6 +71,9 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Cannot check the xml file '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 2e88612..7dbc732 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -109,6 +109,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("certificatePath: Error checking the path: %w", err)
+	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
 	}
@@ -120,6 +123,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("privateKeyFile: Error checking the path: %w", err)
+	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
-- 
2.43.0


From eed1b2f9ab6faed12e74fae96770c2d03cc25abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 30/42] fix: refuse the charsets which are known but not
 supported instead of crashing when parsing

---
 pkg/parser/string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index df2f063..27adc4d 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -23,6 +24,9 @@ func NewString(
 		if err != nil {
 			return nil, err
 		}
+		if charsetEncoding == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported.", config.ConvertFromCharset)
+		}
 	}
 
 	return &String{
-- 
2.43.0


From 31eae80712055cfd7daf700c2316e9637d57f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 31/42] fix: report an unusable https certificate or private
 key at startup

---
 pkg/service/http.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index a884e18..c11d993 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"context"
+	"crypto/tls"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -76,6 +77,14 @@ func NewHttp(
 	}
 
 	var err error
+	var certificate tls.Certificate
+	if config.Https != nil {
+		certificate, err = tls.LoadX509KeyPair(config.Https.CertificatePath, config.Https.PrivateKeyPath)
+		if err != nil {
+			return nil, fmt.Errorf("Cannot load the certificate and the private key: %w", err)
+		}
+	}
+
 	if config.Http != nil {
 		service.httpListener, service.httpServer, err = service.createServer(config.Http.Listen)
 		if err != nil {
@@ -93,15 +102,14 @@ func NewHttp(
 		if err != nil {
 			return nil, err
 		}
+		service.httpsServer.TLSConfig = &tls.Config{
+			Certificates: []tls.Certificate{certificate},
+		}
 
 		service.waitGroup.Add(1)
 		go func() {
 			defer service.waitGroup.Done()
-			service.lastHttpsError = service.httpsServer.ServeTLS(
-				service.httpsListener,
-				config.Https.CertificatePath,
-				config.Https.PrivateKeyPath,
-			)
+			service.lastHttpsError = service.httpsServer.ServeTLS(service.httpsListener, "", "")
 		}()
 	}
 
-- 
2.43.0


From 6ada2eab09b5a942f9c6084bef4e8741c80414cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 32/42] fix: refuse the split parsers which use themselves

---
 pkg/parser/split_config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..3b73fb5 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -57,11 +57,20 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		}
 	}
 
-	_, parserExists := parsers[config.Parser]
+	parser, parserExists := parsers[config.Parser]
 	if !parserExists {
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	// Parsing with a split parser that uses itself, even indirectly, would never end
+	alreadyUsedParsers := map[string]bool{config.Name: true}
+	for split, isSplit := parser.(*SplitConfig); isSplit; split, isSplit = parsers[split.Parser].(*SplitConfig) {
+		if alreadyUsedParsers[split.Name] {
+			return fmt.Errorf("split.parser: The parser '%v' is used by itself.", split.Name)
+		}
+		alreadyUsedParsers[split.Name] = true
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e1db76bc8f1b65fd47b1db38bac1915e0240725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 33/42] fix: refuse the csv delimiters which cannot separate
 columns

---
 pkg/input/csv_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index b793d3f..c1813f2 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -83,6 +83,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if len(config.Delimiter) > 1 {
 		return errors.New("csv.delimiter must be a single character")
 	}
+	if config.Delimiter == "\"" || config.Delimiter == "\x00" || config.Delimiter == "\r" || config.Delimiter == "\n" {
+		return fmt.Errorf("csv.delimiter cannot be %q", config.Delimiter)
+	}
 
 	config.ColumnIndexByName = make(map[string]int)
 	for columnIndex, column := range config.Columns {
-- 
2.43.0


From 8a558ab272464d4c0f501e08a0836c4ce2d3407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 34/42] fix: refuse the indexes without any property

---
 pkg/index/fts5_config.go     | 4 ++++
 pkg/index/map_config.go      | 4 ++++
 pkg/index/sqlite_config.go   | 4 ++++
 pkg/index/wildcard_config.go | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..59c3d09 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -46,6 +46,10 @@ func (config *Fts5Config) Validate(inputs map[string]input.Config, log *logrus.E
 		return fmt.Errorf("sqlite.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("sqlite.properties: At least one property is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for _, propertyName := range config.Properties {
 		if _, alreadyExists := alreadyExistingProperties[propertyName]; alreadyExists {
diff --git a/pkg/index/map_config.go b/pkg/index/map_config.go
index 14a4063..e1eaaef 100644
--- a/pkg/index/map_config.go
+++ b/pkg/index/map_config.go
@@ -27,6 +27,10 @@ func (config *MapConfig) Validate(inputs map[string]input.Config, log *logrus.En
 		return fmt.Errorf("map.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("map.properties: At least one property is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for _, propertyName := range config.Properties {
 		if _, alreadyExists := alreadyExistingProperties[propertyName]; alreadyExists {
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 6da16f4..809b60b 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -42,6 +42,10 @@ func (config *SqliteConfig) Validate(inputs map[string]input.Config, log *logrus
 		return fmt.Errorf("sqlite.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("sqlite.properties: At least one property is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for propertyIndex, property := range config.Properties {
 		logPrefix := fmt.Sprintf("sqlite.properties[%v].", propertyIndex)
diff --git a/pkg/index/wildcard_config.go b/pkg/index/wildcard_config.go
index d8cba6d..f5f80a7 100644
--- a/pkg/index/wildcard_config.go
+++ b/pkg/index/wildcard_config.go
@@ -45,6 +45,10 @@ func (config *WildcardConfig) Validate(inputs map[string]input.Config, log *logr
 		return fmt.Errorf("wildcard.input: Input '%v' not found in inputs list.", config.Input)
 	}
 
+	if len(config.Properties) == 0 {
+		return errors.New("wildcard.properties: At least one property is required.")
+	}
+
 	alreadyExistingProperties := make(map[string]bool)
 	for _, propertyName := range config.Properties {
 		if _, alreadyExists := alreadyExistingProperties[propertyName]; alreadyExists {
-- 
2.43.0


From b3c4cbe9f0ca2a32734633ffa4029e2fae96cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 35/42] fix: refuse the relationships without matched or sorted
 properties

---
 pkg/input/record/sort_config.go   | 3 +++
 pkg/output/relationship/config.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 62a0d5a..96fb5a0 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -25,6 +25,9 @@ func (config *SortConfig) Validate(
 
 	config.Logger = log
 
+	if config.Property == "" {
+		return errors.New("property is required")
+	}
 	// Property will be validated at runtime, because some fields
 	// cannot be checked before runtime (json parsing for example)
 
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index 679ef3b..9285e69 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -100,6 +100,12 @@ func (config *RelationshipMatchConfig) Validate(
 		return errors.New("this item is empty")
 	}
 
+	if config.ParentProperty == "" {
+		return errors.New("parentProperty is required")
+	}
+	if config.ChildProperty == "" {
+		return errors.New("childProperty is required")
+	}
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
-- 
2.43.0


From 483833a848d225264a152886d88680d695c62b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 36/42] fix: refuse the settings named like internal fields of
 the configuration

---
 pkg/index/fts5_config.go         | 16 ++++++++--------
 pkg/index/map_config.go          | 10 +++++-----
 pkg/index/noop_config.go         |  6 +++---
 pkg/index/sqlite_config.go       |  2 +-
 pkg/index/wildcard_config.go     | 14 +++++++-------
 pkg/input/csv_config.go          |  4 ++--
 pkg/input/json_config.go         | 10 +++++-----
 pkg/input/record/sort_config.go  |  6 +++---
 pkg/input/xml_config.go          |  4 ++--
 pkg/output/graphql_config.go     |  6 +++---
 pkg/output/json_array_config.go  |  2 +-
 pkg/output/json_object_config.go |  2 +-
 pkg/parser/boolean_config.go     | 10 +++++-----
 pkg/parser/float_config.go       | 10 +++++-----
 pkg/parser/integer_config.go     |  8 ++++----
 pkg/parser/json_config.go        |  6 +++---
 pkg/parser/split_config.go       | 14 +++++++-------
 pkg/parser/string_config.go      |  8 ++++----
 pkg/service/http_config.go       |  2 +-
 19 files changed, 70 insertions(+), 70 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 59c3d09..7a28a77 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -10,14 +10,14 @@ import (
 var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
 
 type Fts5Config struct {
-	Name       string   `yaml:"name"`
-	Type       string   `yaml:"type"`
-	Dsn        string   `yaml:"dsn"`
-	Input      string   `yaml:"input"`
-	Prefix     []int    `yaml:"prefix"`
-	Tokenize   string   `yaml:"tokenize"`
-	Properties []string `yaml:"properties"`
-	Logger     *logrus.Entry
+	Name       string        `yaml:"name"`
+	Type       string        `yaml:"type"`
+	Dsn        string        `yaml:"dsn"`
+	Input      string        `yaml:"input"`
+	Prefix     []int         `yaml:"prefix"`
+	Tokenize   string        `yaml:"tokenize"`
+	Properties []string      `yaml:"properties"`
+	Logger     *logrus.Entry `yaml:"-"`
 }
 
 func (config *Fts5Config) Validate(inputs map[string]input.Config, log *logrus.Entry) error {
diff --git a/pkg/index/map_config.go b/pkg/index/map_config.go
index e1eaaef..2447ce3 100644
--- a/pkg/index/map_config.go
+++ b/pkg/index/map_config.go
@@ -8,11 +8,11 @@ import (
 )
 
 type MapConfig struct {
-	Name       string   `yaml:"name"`
-	Type       string   `yaml:"type"`
-	Input      string   `yaml:"input"`
-	Properties []string `yaml:"properties"`
-	Logger     *logrus.Entry
+	Name       string        `yaml:"name"`
+	Type       string        `yaml:"type"`
+	Input      string        `yaml:"input"`
+	Properties []string      `yaml:"properties"`
+	Logger     *logrus.Entry `yaml:"-"`
 }
 
 func (config *MapConfig) Validate(inputs map[string]input.Config, log *logrus.Entry) error {
diff --git a/pkg/index/noop_config.go b/pkg/index/noop_config.go
index c2af024..9509ac6 100644
--- a/pkg/index/noop_config.go
+++ b/pkg/index/noop_config.go
@@ -7,9 +7,9 @@ import (
 )
 
 type NoopConfig struct {
-	Name   string `yaml:"name"`
-	Type   string `yaml:"type"`
-	Logger *logrus.Entry
+	Name   string        `yaml:"name"`
+	Type   string        `yaml:"type"`
+	Logger *logrus.Entry `yaml:"-"`
 }
 
 func (config *NoopConfig) Validate(inputs map[string]input.Config, log *logrus.Entry) error {
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 809b60b..6071cc3 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -17,7 +17,7 @@ type SqliteConfig struct {
 	Dsn        string                  `yaml:"dsn"`
 	Input      string                  `yaml:"input"`
 	Properties []*SqlitePropertyConfig `yaml:"properties"`
-	Logger     *logrus.Entry
+	Logger     *logrus.Entry           `yaml:"-"`
 }
 
 type SqlitePropertyConfig struct {
diff --git a/pkg/index/wildcard_config.go b/pkg/index/wildcard_config.go
index f5f80a7..060cb04 100644
--- a/pkg/index/wildcard_config.go
+++ b/pkg/index/wildcard_config.go
@@ -9,13 +9,13 @@ import (
 )
 
 type WildcardConfig struct {
-	Name       string   `yaml:"name"`
-	Type       string   `yaml:"type"`
-	Path       string   `yaml:"path"`
-	Input      string   `yaml:"input"`
-	Properties []string `yaml:"properties"`
-	IgnoreCase *bool    `yaml:"ignoreCase"`
-	Logger     *logrus.Entry
+	Name       string        `yaml:"name"`
+	Type       string        `yaml:"type"`
+	Path       string        `yaml:"path"`
+	Input      string        `yaml:"input"`
+	Properties []string      `yaml:"properties"`
+	IgnoreCase *bool         `yaml:"ignoreCase"`
+	Logger     *logrus.Entry `yaml:"-"`
 }
 
 func (config *WildcardConfig) ShouldIgnoreCase() bool {
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index c1813f2..bc79159 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -17,8 +17,8 @@ type CsvConfig struct {
 	AutodetectColumns bool               `yaml:"autodetectColumns"`
 	Delimiter         string             `yaml:"delimiter"`
 	Columns           []*CsvColumnConfig `yaml:"columns"`
-	ColumnIndexByName map[string]int
-	Logger            *logrus.Entry
+	ColumnIndexByName map[string]int     `yaml:"-"`
+	Logger            *logrus.Entry      `yaml:"-"`
 }
 
 type CsvColumnConfig struct {
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index bcde7f2..f2c03b6 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -9,11 +9,11 @@ import (
 )
 
 type JsonConfig struct {
-	Name             string `yaml:"name"`
-	Type             string `yaml:"type"`
-	Path             string `yaml:"path"`
-	DieOnInputChange *bool  `yaml:"dieOnInputChange"`
-	Logger           *logrus.Entry
+	Name             string        `yaml:"name"`
+	Type             string        `yaml:"type"`
+	Path             string        `yaml:"path"`
+	DieOnInputChange *bool         `yaml:"dieOnInputChange"`
+	Logger           *logrus.Entry `yaml:"-"`
 }
 
 func (config *JsonConfig) GetName() string {
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 96fb5a0..3b0d4c3 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -6,9 +6,9 @@ import (
 )
 
 type SortConfig struct {
-	Logger    *logrus.Entry
-	Property  string `yaml:"property"`
-	Ascending *bool  `yaml:"ascending"`
+	Logger    *logrus.Entry `yaml:"-"`
+	Property  string        `yaml:"property"`
+	Ascending *bool         `yaml:"ascending"`
 }
 
 func (config *SortConfig) IsAscending() bool {
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 08e0c81..a34bfda 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -24,7 +24,7 @@ type XmlConfig struct {
 	DieOnInputChange *bool                `yaml:"dieOnInputChange"`
 	Properties       []*XmlPropertyConfig `yaml:"properties"`
 	RecordXPath      string               `yaml:"recordXpath"`
-	Logger           *logrus.Entry
+	Logger           *logrus.Entry        `yaml:"-"`
 }
 
 type XmlPropertyConfig struct {
@@ -34,7 +34,7 @@ type XmlPropertyConfig struct {
 	XPath         string               `yaml:"xpath"`
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
-	CompiledXPath *xpath.Expr
+	CompiledXPath *xpath.Expr          `yaml:"-"`
 }
 
 func (config *XmlConfig) GetName() string {
diff --git a/pkg/output/graphql_config.go b/pkg/output/graphql_config.go
index bc744e1..6ac62f9 100644
--- a/pkg/output/graphql_config.go
+++ b/pkg/output/graphql_config.go
@@ -9,9 +9,9 @@ import (
 )
 
 type GraphQLConfig struct {
-	Name   string `yaml:"name"`
-	Type   string `yaml:"type"`
-	Logger *logrus.Entry
+	Name   string        `yaml:"name"`
+	Type   string        `yaml:"type"`
+	Logger *logrus.Entry `yaml:"-"`
 }
 
 func (config *GraphQLConfig) GetName() string {
diff --git a/pkg/output/json_array_config.go b/pkg/output/json_array_config.go
index a9c0e24..9c36fe1 100644
--- a/pkg/output/json_array_config.go
+++ b/pkg/output/json_array_config.go
@@ -19,7 +19,7 @@ type JsonArrayConfig struct {
 	Offset        JsonArrayOffsetConfig                              `yaml:"offset"`
 	Parameters    map[string]*parameterPackage.ParameterConfig       `yaml:"parameters"`
 	Relationships map[string]*relationshipPackage.RelationshipConfig `yaml:"relationships"`
-	Logger        *logrus.Entry
+	Logger        *logrus.Entry                                      `yaml:"-"`
 }
 
 type JsonArrayLimitConfig struct {
diff --git a/pkg/output/json_object_config.go b/pkg/output/json_object_config.go
index c648c7d..f0ee2e2 100644
--- a/pkg/output/json_object_config.go
+++ b/pkg/output/json_object_config.go
@@ -17,7 +17,7 @@ type JsonObjectConfig struct {
 	Input         string                                             `yaml:"input"`
 	Parameters    map[string]*parameterPackage.ParameterConfig       `yaml:"parameters"`
 	Relationships map[string]*relationshipPackage.RelationshipConfig `yaml:"relationships"`
-	Logger        *logrus.Entry
+	Logger        *logrus.Entry                                      `yaml:"-"`
 }
 
 func (config *JsonObjectConfig) GetName() string {
diff --git a/pkg/parser/boolean_config.go b/pkg/parser/boolean_config.go
index 72f5240..00f9e27 100644
--- a/pkg/parser/boolean_config.go
+++ b/pkg/parser/boolean_config.go
@@ -6,11 +6,11 @@ import (
 )
 
 type BooleanConfig struct {
-	Name        string   `yaml:"name"`
-	Type        string   `yaml:"type"`
-	TrueValues  []string `yaml:"trueValues"`
-	FalseValues []string `yaml:"falseValues"`
-	Logger      *logrus.Entry
+	Name        string        `yaml:"name"`
+	Type        string        `yaml:"type"`
+	TrueValues  []string      `yaml:"trueValues"`
+	FalseValues []string      `yaml:"falseValues"`
+	Logger      *logrus.Entry `yaml:"-"`
 }
 
 func (config *BooleanConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/float_config.go b/pkg/parser/float_config.go
index e92dca3..71f0e03 100644
--- a/pkg/parser/float_config.go
+++ b/pkg/parser/float_config.go
@@ -6,11 +6,11 @@ import (
 )
 
 type FloatConfig struct {
-	Name             string `yaml:"name"`
-	Type             string `yaml:"type"`
-	DecimalSeparator string `yaml:"decimalSeparator"`
-	IgnoreCharacters string `yaml:"ignoreCharacters"`
-	Logger           *logrus.Entry
+	Name             string        `yaml:"name"`
+	Type             string        `yaml:"type"`
+	DecimalSeparator string        `yaml:"decimalSeparator"`
+	IgnoreCharacters string        `yaml:"ignoreCharacters"`
+	Logger           *logrus.Entry `yaml:"-"`
 }
 
 func (config *FloatConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/integer_config.go b/pkg/parser/integer_config.go
index 3e003b7..d9613cc 100644
--- a/pkg/parser/integer_config.go
+++ b/pkg/parser/integer_config.go
@@ -6,10 +6,10 @@ import (
 )
 
 type IntegerConfig struct {
-	Name             string `yaml:"name"`
-	Type             string `yaml:"type"`
-	IgnoreCharacters string `yaml:"ignoreCharacters"`
-	Logger           *logrus.Entry
+	Name             string        `yaml:"name"`
+	Type             string        `yaml:"type"`
+	IgnoreCharacters string        `yaml:"ignoreCharacters"`
+	Logger           *logrus.Entry `yaml:"-"`
 }
 
 func (config *IntegerConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/json_config.go b/pkg/parser/json_config.go
index cd45846..4ae9e92 100644
--- a/pkg/parser/json_config.go
+++ b/pkg/parser/json_config.go
@@ -6,9 +6,9 @@ import (
 )
 
 type JsonConfig struct {
-	Name   string `yaml:"name"`
-	Type   string `yaml:"type"`
-	Logger *logrus.Entry
+	Name   string        `yaml:"name"`
+	Type   string        `yaml:"type"`
+	Logger *logrus.Entry `yaml:"-"`
 }
 
 func (config *JsonConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 3b73fb5..cf7aa67 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -8,13 +8,13 @@ import (
 )
 
 type SplitConfig struct {
-	Name              string  `yaml:"name"`
-	Type              string  `yaml:"type"`
-	Delimiter         *string `yaml:"delimiter"`
-	DelimiterIsRegexp *bool   `yaml:"delimiterIsRegexp"`
-	Parser            string  `yaml:"parser"`
-	Logger            *logrus.Entry
-	DelimiterRegexp   *regexp.Regexp
+	Name              string         `yaml:"name"`
+	Type              string         `yaml:"type"`
+	Delimiter         *string        `yaml:"delimiter"`
+	DelimiterIsRegexp *bool          `yaml:"delimiterIsRegexp"`
+	Parser            string         `yaml:"parser"`
+	Logger            *logrus.Entry  `yaml:"-"`
+	DelimiterRegexp   *regexp.Regexp `yaml:"-"`
 }
 
 func (config *SplitConfig) GetName() string {
diff --git a/pkg/parser/string_config.go b/pkg/parser/string_config.go
index 99ef7a1..ee676ec 100644
--- a/pkg/parser/string_config.go
+++ b/pkg/parser/string_config.go
@@ -6,10 +6,10 @@ import (
 )
 
 type StringConfig struct {
-	Name               string `yaml:"name"`
-	Type               string `yaml:"type"`
-	ConvertFromCharset string `yaml:"convertFromCharset"`
-	Logger             *logrus.Entry
+	Name               string        `yaml:"name"`
+	Type               string        `yaml:"type"`
+	ConvertFromCharset string        `yaml:"convertFromCharset"`
+	Logger             *logrus.Entry `yaml:"-"`
 }
 
 func (config *StringConfig) Validate(parsers map[string]Config, log *logrus.Entry) error {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 7dbc732..fb1241d 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -16,7 +16,7 @@ type HttpConfig struct {
 	Https      *HttpHttpsConfig   `yaml:"https"`
 	ErrorsType string             `yaml:"errorsType"`
 	Routes     []*HttpRouteConfig `yaml:"routes"`
-	Logger     *logrus.Entry
+	Logger     *logrus.Entry      `yaml:"-"`
 }
 
 type HttpHttpConfig struct {
-- 
2.43.0


From b86b2d58f2ec30fcc4510c380d3dadaac7e0a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 37/42] fix: complete the requests in progress before exiting
 on an interrupt signal

---
 cmd/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 97af3f1..c1d8ce4 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -99,11 +99,15 @@ func main() {
 		os.Exit(1)
 		return
 	}
+	closed := make(chan struct{})
 	go (func() {
+		defer close(closed)
+
 		signals := make(chan os.Signal, 1)
 		signal.Notify(signals, os.Interrupt, os.Kill)
-		signal := <-signals
-		log.Printf("Received signal '%v'. Shutting down...", signal.String())
+		receivedSignal := <-signals
+		signal.Stop(signals) // A second signal does not wait for the requests in progress
+		log.Printf("Received signal '%v'. Shutting down...", receivedSignal.String())
 
 		if err := service.Close(services); err != nil {
 			log.Errorf("Error closing services: %v", err)
@@ -115,4 +119,10 @@ func main() {
 		os.Exit(1)
 		return
 	}
+
+	// The services stop as soon as they are being closed, which
+	// also has to wait for the requests in progress
+	if len(services) > 0 {
+		<-closed
+	}
 }
-- 
2.43.0


From 63b4e4b60dfb420fdc8fc0580abba7181da3cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 38/42] fix: sqlite indexes of one database whose names and
 properties are alike

---
 pkg/index/sqlite.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 0958298..e8d1ba9 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -211,9 +211,11 @@ func (sqlite *Sqlite) getPropertyIdentifier(propertyName string) (string, error)
 }
 
 func (sqlite *Sqlite) getIndexIdentifier(propertyName string) (string, error) {
+	// The length avoids having the same identifier for the property "b_c"
+	// of the index "a" and for the property "c" of the index "a_b"
 	return sqlitePackage.SanitizeIdentifier(
 		sqlite.db,
-		fmt.Sprintf("index_%v_%v", sqlite.config.Name, propertyName),
+		fmt.Sprintf("index_%v_%v_%v", len(sqlite.config.Name), sqlite.config.Name, propertyName),
 	)
 }
 
-- 
2.43.0


From 08f62026e6e38007822d005bd1f926ece3fad3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 39/42] fix: do not index a record several times for a value
 contained in several nested arrays

---
 pkg/index/map.go | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index df4507e..dc15724 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -101,21 +101,7 @@ func (mapIndex *Map) addValueToIndex(
 	position record.Position,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
-		alreadyIndexedValues := make(map[interface{}]bool)
-		for _, valueArrayValue := range valueArray {
-			if valueArrayValue == nil || reflect.TypeOf(valueArrayValue).Comparable() {
-				if alreadyIndexedValues[valueArrayValue] {
-					continue
-				}
-				alreadyIndexedValues[valueArrayValue] = true
-			}
-
-			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
-				return err
-			}
-		}
-
-		return nil
+		return mapIndex.addArrayToIndex(index, property, valueArray, position, make(map[interface{}]bool))
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
@@ -133,6 +119,37 @@ func (mapIndex *Map) addValueToIndex(
 	return nil
 }
 
+// Each value is indexed once, even if several nested arrays contain it
+func (mapIndex *Map) addArrayToIndex(
+	index map[string]mapPropertyIndex,
+	property string,
+	valueArray []interface{},
+	position record.Position,
+	alreadyIndexedValues map[interface{}]bool,
+) error {
+	for _, value := range valueArray {
+		if subArray, valueIsArray := value.([]interface{}); valueIsArray {
+			if err := mapIndex.addArrayToIndex(index, property, subArray, position, alreadyIndexedValues); err != nil {
+				return err
+			}
+			continue
+		}
+
+		if value == nil || reflect.TypeOf(value).Comparable() {
+			if alreadyIndexedValues[value] {
+				continue
+			}
+			alreadyIndexedValues[value] = true
+		}
+
+		if err := mapIndex.addValueToIndex(index, property, value, position); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func (mapIndex *Map) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
-- 
2.43.0


From 35c87580027cbfb1440bd67d7f4f9870f6ae4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 40/42] fix: refuse an existing sqlite index built with other
 collations

---
 pkg/index/sqlite.go       |  8 +++++++-
 pkg/index/sqlite/table.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index e8d1ba9..ac7dc82 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -55,13 +55,19 @@ func NewSqlite(
 		}
 
 		columnNames := []string{"offset"}
+		collations := make(map[string]string)
 		for _, property := range sqlite.config.Properties {
-			columnNames = append(columnNames, fmt.Sprintf("property_%v", property.Name))
+			columnName := fmt.Sprintf("property_%v", property.Name)
+			columnNames = append(columnNames, columnName)
+			collations[columnName] = property.Collate
 		}
 		tableName := fmt.Sprintf("rodb_%v_index", sqlite.config.Name)
 		if err := sqlitePackage.AssertTableColumns(sqlite.db, tableName, columnNames); err != nil {
 			return nil, err
 		}
+		if err := sqlitePackage.AssertTableCollations(sqlite.db, tableName, collations); err != nil {
+			return nil, err
+		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
diff --git a/pkg/index/sqlite/table.go b/pkg/index/sqlite/table.go
index 3bbe122..f877da5 100644
--- a/pkg/index/sqlite/table.go
+++ b/pkg/index/sqlite/table.go
@@ -3,6 +3,7 @@ package sqlite
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 )
 
 // Validates that the table of an existing index has exactly the given columns
@@ -40,6 +41,34 @@ func AssertTableColumns(db *sql.DB, tableName string, columnNames []string) erro
 	return nil
 }
 
+// Validates that the columns of the table of an existing index are
+// indexed with the given collations
+func AssertTableCollations(db *sql.DB, tableName string, collations map[string]string) error {
+	rows, err := db.Query(`
+		SELECT columns."name", columns."coll"
+		FROM pragma_index_list(?) AS indexes, pragma_index_xinfo(indexes."name") AS columns
+		WHERE columns."key" = 1;
+	`, tableName)
+	if err != nil {
+		return err
+	}
+	defer rows.Close()
+
+	for rows.Next() {
+		var columnName, collation string
+		if err := rows.Scan(&columnName, &collation); err != nil {
+			return err
+		}
+
+		expected, isExpected := collations[columnName]
+		if isExpected && !strings.EqualFold(collation, expected) {
+			return fmt.Errorf("The configured collation does not match the existing index: the column '%v' uses '%v'.", columnName, collation)
+		}
+	}
+
+	return rows.Err()
+}
+
 // Validates that the table of an existing index is a fts5 table
 func AssertFts5Table(db *sql.DB, tableName string) error {
 	var count int64
-- 
2.43.0


From 5ef377875652fb0ae671ce497ca1736219785562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 41/42] fix: stop accepting requests everywhere when shutting
 down, instead of one server after another

---
 pkg/service/http.go    | 20 +++++++++++++++-----
 pkg/service/service.go | 10 +++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index c11d993..084e044 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -319,14 +319,24 @@ func (service *Http) Wait() error {
 }
 
 func (service *Http) Close() error {
+	servers := make([]*http.Server, 0, 2)
 	if service.config.Http != nil {
-		if err := service.httpServer.Shutdown(context.Background()); err != nil {
-			return err
-		}
+		servers = append(servers, service.httpServer)
 	}
-
 	if service.config.Https != nil {
-		if err := service.httpsServer.Shutdown(context.Background()); err != nil {
+		servers = append(servers, service.httpsServer)
+	}
+
+	// None of them must accept new requests while another
+	// one is waiting for it's requests in progress
+	shutdownErrors := make(chan error, len(servers))
+	for _, server := range servers {
+		go func(server *http.Server) {
+			shutdownErrors <- server.Shutdown(context.Background())
+		}(server)
+	}
+	for range servers {
+		if err := <-shutdownErrors; err != nil {
 			return err
 		}
 	}
diff --git a/pkg/service/service.go b/pkg/service/service.go
index bade741..2615308 100644
--- a/pkg/service/service.go
+++ b/pkg/service/service.go
@@ -62,8 +62,16 @@ func Wait(services List) error {
 }
 
 func Close(services List) error {
+	// None of them must accept new requests while another
+	// one is waiting for it's requests in progress
+	closingErrors := make(chan error, len(services))
 	for _, service := range services {
-		if err := service.Close(); err != nil {
+		go func(service Service) {
+			closingErrors <- service.Close()
+		}(service)
+	}
+	for range services {
+		if err := <-closingErrors; err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From e4469a309de40fcc815b9cb5bac6f77d27899c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:09 +0000
Subject: [PATCH 42/42] fix: a relationship limit too large for an int no
 longer makes the requests fail

---
 pkg/output/json_common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index e61f313..c0c643f 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -211,7 +211,8 @@ func loadRelationships(
 		} else {
 			count = 1
 		}
-		if count == 0 {
+		// A limit too large to be an int is also larger than any list
+		if count <= 0 {
 			count = len(relationshipRecords)
 		} else if len(relationshipRecords) < count {
 			count = len(relationshipRecords)
-- 
2.43.0

