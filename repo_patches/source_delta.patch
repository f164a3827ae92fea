From 54a2fd5ad98e691e5ecf8be0ea80c320bf7d89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 01/46] fix: write JSON numbers so that they read back as the
 same number

---
 source/parser/json.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..754efc8 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -537,7 +537,7 @@ public:
      * \param val double A double as a value.
      */
     JsonLeaf(double val)
-        : JsonLeaf(std::to_string(val), TypeChecker::Type::FLOAT)
+        : JsonLeaf(_number_text(val), TypeChecker::Type::FLOAT)
     { }
 
     /**
@@ -561,7 +561,8 @@ public:
     template<typename T>
     void value(T val)
     {
-        _val = _tc(val);
+        if constexpr (std::is_floating_point_v<T>) _val = _number_text(val);
+        else _val = _tc(val);
         _type = _tc(_val);
     }
 
@@ -663,6 +664,23 @@ public:
     operator std::string() const;
 
 private:
+    /**
+     * \brief Text of a number that reads back as the same number.
+     * \param val The number.
+     * \return std::string The shortest fixed notation with six decimals when
+     * it is exact, a notation with all significant digits otherwise.
+     */
+    static std::string _number_text(double val)
+    {
+        std::string text = std::to_string(val);
+        double back = 0.0;
+        if (convert<double>(text, back) && back == val) return text;
+        std::ostringstream ss;
+        ss.precision(std::numeric_limits<double>::max_digits10);
+        ss << val;
+        return ss.str();
+    }
+
     std::string _val;   ///< \brief Value of the JsonLeaf.
     TypeChecker::Type _type;         ///< \brief TypeChecker::Type of the value field.
 };
-- 
2.43.0


From 27af9c1cc9d58ae8753cbbf70b62d65cc6b61bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 02/46] fix: write an empty JSON string as a quoted string

---
 source/parser/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 754efc8..2fa41b4 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1493,7 +1493,7 @@ inline std::istream& operator>>(std::istream& os, JsonObject& obj)
 
 inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 {
-    if (obj._type == TypeChecker::Type::STRING)
+    if (obj._type == TypeChecker::Type::STRING || obj._val.empty())
     {
         os << "\"" << obj._val << "\"";
     }
-- 
2.43.0


From 8d6991f1beb87f6bd03ef15bf6eb8b07467529ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 03/46] fix: read empty JSON lists and dictionaries back as
 empty

---
 source/parser/json.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 2fa41b4..710996d 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1558,8 +1558,11 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
     char c;
     os.read(&c, 1);
 
+    const bool empty = os.peek() == ']';
+    if (empty) os.read(&c, 1);
+
     std::string more_items;
-    while (true) {
+    while (!empty) {
         std::getline(os, more_items, ']');
         os.seekg(-long(more_items.size() + 1), os.cur);
         JsonItem ji;
@@ -1606,8 +1609,11 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
     char c;
     os.read(&c, 1);
 
+    const bool empty = os.peek() == '}';
+    if (empty) os.read(&c, 1);
+
     std::string more_items;
-    while (true)
+    while (!empty)
     {
         std::getline(os, more_items, '}');
         os.seekg(-long(more_items.size() + 1), os.cur);
-- 
2.43.0


From aa8982261aa4ca4b1a31b6196ef78feb17554272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/46] fix: do not fail the stream after reading a JSON
 document at its end

---
 source/parser/json.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 710996d..5db77a9 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1512,11 +1512,7 @@ inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
     {
         obj._type = TypeChecker::Type::STRING;
         std::getline(os, obj._val, '\"');
-        if (!os.eof())
-        {
-            os.read(&c, 1);
-            if (c != ',') os.seekg(-1, os.cur);
-        }
+        if (!os.eof() && os.peek() == ',') os.read(&c, 1);
     }
     else
     {
@@ -1580,11 +1576,7 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
         }
     }
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    if (!os.eof() && os.peek() == ',') os.read(&c, 1);
     return os;
 }
 
@@ -1637,11 +1629,7 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
         }
     }
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    if (!os.eof() && os.peek() == ',') os.read(&c, 1);
     return os;
 }
 
-- 
2.43.0


From df6468c5b1c4a7095108129718da9f6a4931a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 05/46] fix: report malformed or truncated JSON instead of
 looping forever

---
 source/parser/json.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 5db77a9..9024fd9 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1557,15 +1557,16 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
     const bool empty = os.peek() == ']';
     if (empty) os.read(&c, 1);
 
-    std::string more_items;
     while (!empty) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
+        const auto item_begin = os.tellg();
         JsonItem ji;
         os >> ji;
         obj._list.push_back(ji);
 
-        os.read(&c, 1);
+        if (!os.read(&c, 1))
+        {
+            throw std::runtime_error("Json bad format: list not closed");
+        }
         if (c == ']')
         {
             break;
@@ -1574,6 +1575,10 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
         {
             os.seekg(-1, os.cur);
         }
+        if (os.tellg() <= item_begin)
+        {
+            throw std::runtime_error("Json bad format: list item expected");
+        }
     }
 
     if (!os.eof() && os.peek() == ',') os.read(&c, 1);
@@ -1604,11 +1609,8 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
     const bool empty = os.peek() == '}';
     if (empty) os.read(&c, 1);
 
-    std::string more_items;
     while (!empty)
     {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
         os.read(&c, 1);
         std::string key;
         std::getline(os, key, '\"');
@@ -1618,7 +1620,10 @@ inline std::istream& operator>>(std::istream& os, JsonDict& obj)
         os >> ji;
         obj._map[key] = ji;
 
-        os.read(&c, 1);
+        if (!os.read(&c, 1))
+        {
+            throw std::runtime_error("Json bad format: dict not closed");
+        }
         if (c == '}')
         {
             break;
@@ -1642,7 +1647,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
     char c;
-    os.read(&c, 1);
+    if (!os.read(&c, 1)) return os;
     os.seekg(-1, os.cur);
     switch(c)
     {
-- 
2.43.0


From 0d8d178457de6b7cbe68b03652568e145198f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 06/46] fix: compare empty JSON items without dereferencing
 nothing

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 9024fd9..ef5043d 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1747,6 +1747,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return _value == rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From ede5253060d7f5285dcdc0d1ad7e1b44ae5571d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 07/46] fix: converting an empty CSV field or JSON leaf yields
 zero, not garbage

---
 source/parser/csv.hpp  | 4 ++--
 source/parser/json.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..880f625 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -120,7 +120,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -380,7 +380,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index ef5043d..bcbae25 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -591,7 +591,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From 9c9ec4d729a6d38003d75eac759473785611239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 08/46] fix: iterate over every data row of a CSV file and stop

---
 source/parser/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 880f625..cc21c63 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -765,8 +765,8 @@ public:
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
-                           _separator}; 
+        return CSVIterator{_fn, std::max<std::size_t>(_rows_amount, 1),
+                           _cols_amount, _types, _separator}; 
     }
 
     /**
-- 
2.43.0


From b8e34ecf0ddb983c3880716bef812909d3cdbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 09/46] fix: count the last CSV row when the file does not end
 with a newline

---
 source/parser/csv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index cc21c63..30aea6c 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -661,6 +661,10 @@ public:
             std::count(std::istream_iterator<char>(file), 
                 std::istream_iterator<char>(), '\n'));
         file.clear();
+        file.seekg(-1, std::ios::end);
+        char last_char = '\n';
+        if (file.get(last_char) && last_char != '\n') ++_rows_amount;
+        file.clear();
         file.seekg(0);
 
         // Get first two lines.
-- 
2.43.0


From 280cbbc1582a08d8e5e4f80189fb54f1a767c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 10/46] fix: wrap the CSV row index before looking it up in the
 cache

---
 source/parser/csv.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 30aea6c..8561c27 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -734,10 +734,14 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
+        if (_rows_amount == 0)
+        {
+            throw std::runtime_error("operator[] failed: empty CSV file");
+        }
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
-- 
2.43.0


From e7966e2a3d63a4c9adcc757de485ee74162eaf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 11/46] fix: a CSV row ending with a separator has an empty
 last field

---
 source/parser/csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 8561c27..0f71c74 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -290,6 +290,11 @@ public:
             i++;
         }
 
+        if (i == idx && (_line.empty() || _line.back() == _separator))
+        {
+            return CSVField{std::string{}, _types.at(idx), idx};
+        }
+
         throw std::runtime_error("CSV bad format: fields missing");
     }
 
-- 
2.43.0


From 695abec0f22c0dab1bd5957d66e7d761c10c17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 12/46] fix: CSV rows and fields own their types

---
 source/parser/csv.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 0f71c74..24da111 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -69,6 +69,7 @@ public:
         if (_type == TypeChecker::Type::AUTO)
         {
             _type = _tc(_field);
+            type = _type;
         }
     }
 
@@ -139,7 +140,7 @@ public:
 
 private:
     std::string _field;     ///< CSV field string.
-    TypeChecker::Type& _type;            ///< CSV field type.
+    TypeChecker::Type _type; ///< CSV field type.
     std::size_t _col_index; ///> CSV field column index.
 };
 
@@ -187,6 +188,7 @@ public:
                 std::getline(ss, s, separator);
                 _types.push_back(_tc(s));
             }
+            types = _types;
         }
     }
 
@@ -284,7 +286,8 @@ public:
         {
             if(i == idx)
             {
-                return CSVField{field, _types.at(idx), idx};
+                auto type = _types.at(idx);
+                return CSVField{field, type, idx};
             }
 
             i++;
@@ -292,7 +295,8 @@ public:
 
         if (i == idx && (_line.empty() || _line.back() == _separator))
         {
-            return CSVField{std::string{}, _types.at(idx), idx};
+            auto type = _types.at(idx);
+            return CSVField{std::string{}, type, idx};
         }
 
         throw std::runtime_error("CSV bad format: fields missing");
@@ -355,7 +359,8 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            ret.push_back(CSVField{s, _types.at(i), i});
+            auto type = _types.at(i);
+            ret.push_back(CSVField{s, type, i});
         }
         return ret;
     }
@@ -440,7 +445,7 @@ private:
     std::string _line;         ///< The line in string. 
     std::size_t _idx;          ///< The index of the CSV row.
     std::size_t _cols_amount;  ///< The column amount of the row.
-    std::vector<TypeChecker::Type>& _types; ///< The types of each field in the row.
+    std::vector<TypeChecker::Type> _types; ///< The types of each field in the row.
     char _separator;           ///< The separator of each field.
 };
 
@@ -480,11 +485,11 @@ public:
      */
     CSVIterator(const CSVIterator& obj)
         : _fn{obj._fn}
-        , _row{std::string(), 0, obj._row._cols_amount, 
-            obj._row._types, obj._row._separator}
+        , _row{obj._row}
         , _req_row_idx{obj._req_row_idx}
         , _stream{obj._fn}
     {
+        _row._idx = 0;
         std::getline(_stream, _row._line);
     }
 
-- 
2.43.0


From 2a6e5d5d190dfcd1e11ad3af3634585107fa8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 13/46] fix: one-hot encoding keeps the features when a label
 column precedes them

---
 source/parser/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..7d63158 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -246,13 +246,15 @@ public:
                     auto row = entry(row_idx);
 
                     // Copy the input.
+                    SizeType input_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + input_idx++]
+                                = row[col_idx];
                         }
                     }
 
-- 
2.43.0


From 3fe94452b4096c2e4428ed732defc5f66d4e65a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 14/46] fix: MNIST reads do not depend on an earlier read past
 the end of a short file

---
 source/parser/mnist.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..c29c8e1 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -371,6 +371,7 @@ public:
     MnistImage image(std::size_t idx)
     {
         idx = idx % _size;
+        _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
         return MnistImage{_image_ifs, idx};
@@ -384,6 +385,7 @@ public:
     MnistLabel label(std::size_t idx)
     {
         idx = idx % _size;
+        _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
         return MnistLabel{_label_ifs, idx};
-- 
2.43.0


From 7b95690a818fbe1d8d6278a3a95ef96f8caf6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 15/46] fix: refuse MNIST files with a truncated header

---
 source/parser/mnist.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index c29c8e1..0059861 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -74,7 +74,10 @@ static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
     std::uint32_t ret;
     char* buf = reinterpret_cast<char*>(&ret);
-    ifs.read(buf, 4);
+    if (!ifs.read(buf, 4))
+    {
+        throw std::runtime_error("Data malformed: truncated header");
+    }
     uint32_endian_order(ret);
     return ret;
 }
-- 
2.43.0


From b65929aa99a84d06bd58a5cd3e574819fd78473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 16/46] fix: accessing an item of an empty MNIST file is an
 exception

---
 source/parser/mnist.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 0059861..88a2b0b 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -373,7 +373,7 @@ public:
      */
     MnistImage image(std::size_t idx)
     {
-        idx = idx % _size;
+        idx = _wrap(idx);
         _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
@@ -387,7 +387,7 @@ public:
      */
     MnistLabel label(std::size_t idx)
     {
-        idx = idx % _size;
+        idx = _wrap(idx);
         _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
@@ -429,6 +429,17 @@ public:
     }
 
 private:
+    /**
+     * \brief Circular indexing of the items.
+     * \param idx The requested index.
+     * \return std::size_t The index of an existing item.
+     */
+    std::size_t _wrap(std::size_t idx) const
+    {
+        if (_size == 0) throw std::runtime_error("Data malformed: no items");
+        return idx % _size;
+    }
+
     /**
      * \brief Check if the Mnist file stream is malformed in relation to the
      * number to compare.
-- 
2.43.0


From d552c8f3a10a35919438c3aeca07e178571df26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 17/46] fix: CIFAR reads do not depend on an earlier read past
 the end of a short file

---
 source/parser/cifar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..bee90a8 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -484,6 +484,7 @@ public:
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
@@ -500,6 +501,7 @@ public:
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
-- 
2.43.0


From 39ba19a745aba8e33bb0618c865b06f3d63e38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 18/46] fix: an empty CSV file has no entries

---
 source/parser/csv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 24da111..21fb6cc 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -907,7 +907,7 @@ public:
 
     SizeType entries_amount() const override
     {
-        return rows_size() - 1;
+        return rows_size() > 0 ? rows_size() - 1 : 0;
     }
 
     SizeType feature_size() const override
-- 
2.43.0


From d6bf1408936945daf8d49c9a5c06bfdcd8d97be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 19/46] fix: rows dropped with an incomplete tail sequence are
 not counted

---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..0f8802c 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
-- 
2.43.0


From 8b965ee66a72792cee5263fb92b11f00d277489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 20/46] fix: changing the sequence size or splitting an empty
 data set does not divide by zero

---
 source/data/dataset.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0f8802c..b6e0424 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
-        _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_size * _sequence_amount;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
@@ -579,7 +580,8 @@ public:
         if (perc < 0.0) perc = 0.0;
         auto to = static_cast<SizeType>(perc
             * static_cast<NumType>(_feature_amount)
-            / static_cast<NumType>(_sequence_size)) * _sequence_size;
+            / static_cast<NumType>(std::max(_sequence_size, SizeType(1))))
+            * _sequence_size;
         return SplitDataset(subdata(0, to), subdata(to, _feature_amount));
     }
 
-- 
2.43.0


From f6dc8ae6306172db2f7f22d99ad6e6753ac7dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 21/46] fix: normalizing a constant column or an empty data set
 gives no garbage

---
 source/data/dataset.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b6e0424..c3c9a80 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -637,6 +637,8 @@ public:
 
     Dataset<T>& min_max_normalization()
     {
+        if (_feature_amount == 0) return *this;
+
         std::vector<T> min_vec(static_cast<std::size_t>(_feature_size));
         std::vector<T> max_vec(static_cast<std::size_t>(_feature_size));
 
@@ -663,9 +665,10 @@ public:
         {
             for (std::size_t col = 0; col < _feature_size; ++col)
             {
+                auto range = max_vec[col] - min_vec[col];
+                if (range == T(0)) range = T(1);
                 _data[row * _feature_size + col]
-                    = (_data[row * _feature_size + col] - min_vec[col])
-                        / (max_vec[col] - min_vec[col]);
+                    = (_data[row * _feature_size + col] - min_vec[col]) / range;
             }
         }
         return *this;
-- 
2.43.0


From 2ef75288e8308e0d71b931df8c17710ec68e4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 22/46] fix: run each layer of the graph after all the layers
 it depends on

---
 source/dnn/dlgraph.cpp | 134 ++++++++++++++++-------------------------
 source/dnn/dlgraph.hpp |  12 ++++
 2 files changed, 65 insertions(+), 81 deletions(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..d61b239 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -380,95 +380,17 @@ std::vector<SizeType> DLGraph::loss_layers_idx() const
 
 std::vector<DLGraph::Arc> DLGraph::training_forward_run() const
 {
-    std::vector<DLGraph::Arc> ret;
-    std::vector<SizeType> layers_idx(_input_layers_idx);
-    std::vector<SizeType> done_list;
-    while(!layers_idx.empty())
-    {
-        auto curr_layers_idx = layers_idx;
-        layers_idx.clear();
-        for (auto from_layer_idx: curr_layers_idx)
-        {
-            for (const auto& to_layer_idx: training_forward(from_layer_idx))
-            {
-                DLGraph::Arc arc;
-                arc.from = _layers[from_layer_idx];
-                arc.to   = _layers[to_layer_idx];
-                ret.push_back(arc);
-
-                done_list.push_back(from_layer_idx);
-                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
-                    && DLMath::index_of(done_list, to_layer_idx) == -1
-                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
-                {
-                    layers_idx.push_back(to_layer_idx);
-                }
-            }
-        }
-    }
-    return ret;
+    return _run(_training_forward_graph, _input_layers_idx);
 }
 
 std::vector<DLGraph::Arc> DLGraph::forward_run() const
 {
-    std::vector<DLGraph::Arc> ret;
-    std::vector<SizeType> layers_idx(_input_layers_idx);
-    std::vector<SizeType> done_list;
-    while(!layers_idx.empty())
-    {
-        auto curr_layers_idx = layers_idx;
-        layers_idx.clear();
-        for (auto from_layer_idx: curr_layers_idx)
-        {
-            for (const auto& to_layer_idx: forward(from_layer_idx))
-            {
-                DLGraph::Arc arc;
-                arc.from = _layers[from_layer_idx];
-                arc.to   = _layers[to_layer_idx];
-                ret.push_back(arc);
-
-                done_list.push_back(from_layer_idx);
-                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
-                    && DLMath::index_of(done_list, to_layer_idx) == -1
-                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
-                {
-                    layers_idx.push_back(to_layer_idx);
-                }
-            }
-        }
-    }
-    return ret;
+    return _run(_forward_graph, _input_layers_idx);
 }
 
 std::vector<DLGraph::Arc> DLGraph::backward_run() const
 {
-    std::vector<DLGraph::Arc> ret;
-    std::vector<SizeType> layers_idx(_loss_layers_idx);
-    std::vector<SizeType> done_list;
-    while(!layers_idx.empty())
-    {
-        auto curr_layers_idx = layers_idx;
-        layers_idx.clear();
-        for (auto from_layer_idx: curr_layers_idx)
-        {
-            for (const auto& to_layer_idx: backward(from_layer_idx))
-            {
-                DLGraph::Arc arc;
-                arc.from = _layers[from_layer_idx];
-                arc.to   = _layers[to_layer_idx];
-                ret.push_back(arc);
-
-                done_list.push_back(from_layer_idx);
-                if (DLMath::index_of(curr_layers_idx, to_layer_idx) == -1
-                    && DLMath::index_of(done_list, to_layer_idx) == -1
-                    && DLMath::index_of(layers_idx, to_layer_idx) == -1)
-                {
-                    layers_idx.push_back(to_layer_idx);
-                }
-            }
-        }
-    }
-    return ret;
+    return _run(_backward_graph, _loss_layers_idx);
 }
 
 SizeType DLGraph::size() const
@@ -496,6 +418,56 @@ std::int64_t DLGraph::index_of(const Layer& l) const
     return DLMath::index_of(layer_pointers, &l);
 }
 
+std::vector<DLGraph::Arc> DLGraph::_run(
+    const Graph<std::shared_ptr<Layer>>& graph,
+    const std::vector<SizeType>& start_idx) const
+{
+    // The layers to run: all the ones reachable from the starting layers.
+    std::vector<SizeType> pending(start_idx);
+    for (SizeType i = 0; i < pending.size(); ++i)
+    {
+        for (const auto& to_layer_idx: graph.successors(pending[i]))
+        {
+            if (DLMath::index_of(pending, to_layer_idx) == -1)
+            {
+                pending.push_back(to_layer_idx);
+            }
+        }
+    }
+
+    std::vector<DLGraph::Arc> ret;
+    while (!pending.empty())
+    {
+        // The first layer that does not wait for another one. In case of a
+        // cycle they all do, then take the first.
+        auto next = std::find_if(
+            pending.begin(), pending.end(),
+            [&](const SizeType& layer_idx)
+            {
+                auto predecessors = graph.predecessors(layer_idx);
+                return std::none_of(
+                    predecessors.begin(), predecessors.end(),
+                    [&](const SizeType& predecessor_idx)
+                    {
+                        return predecessor_idx != layer_idx && DLMath::index_of(
+                            pending, predecessor_idx) != -1;
+                    });
+            });
+        if (next == pending.end()) next = pending.begin();
+        auto from_layer_idx = *next;
+        pending.erase(next);
+
+        for (const auto& to_layer_idx: graph.successors(from_layer_idx))
+        {
+            DLGraph::Arc arc;
+            arc.from = _layers[from_layer_idx];
+            arc.to   = _layers[to_layer_idx];
+            ret.push_back(arc);
+        }
+    }
+    return ret;
+}
+
 void DLGraph::_compute_input_layers()
 {
     _input_layers_idx.clear();
diff --git a/source/dnn/dlgraph.hpp b/source/dnn/dlgraph.hpp
index 7a49504..bc90d68 100644
--- a/source/dnn/dlgraph.hpp
+++ b/source/dnn/dlgraph.hpp
@@ -227,6 +227,18 @@ public:
     std::int64_t index_of(const Layer& l) const;
 
 private:
+    /**
+     * \brief List the arcs reachable from some layers in the order in which
+     * they have to be run: an arc out of a layer comes after all the arcs into
+     * it.
+     * \param graph     The graph to run.
+     * \param start_idx The layers from which to start.
+     * \return std::vector<Arc> The ordered arcs.
+     */
+    [[nodiscard]] std::vector<Arc> _run(
+        const Graph<std::shared_ptr<Layer>>& graph,
+        const std::vector<SizeType>& start_idx) const;
+
     void _compute_input_layers();
     void _compute_output_layers();
 
-- 
2.43.0


From 94e093ea0ffc03aafe01c1f711b87e4bd5b4334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 23/46] fix: input and output layers of the graph are known
 without any edge

---
 source/dnn/dlgraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index d61b239..d869ac3 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -88,6 +88,8 @@ void DLGraph::add_node(std::shared_ptr<Layer> layer)
     }
 
     _layers.push_back(layer);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 void DLGraph::add_edge(std::shared_ptr<Layer> from, std::shared_ptr<Layer> to)
@@ -191,6 +193,8 @@ void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
     _loss_layers_idx.push_back(_layers.size() - 1);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From 1774b1b88ddf215c3b495b67b7624cea9b514b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 24/46] fix: adding as loss a layer that is already in the
 graph marks that layer

---
 source/dnn/dlgraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index d869ac3..a42bc39 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -192,7 +192,11 @@ void DLGraph::add_arc_backward(
 void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
-    _loss_layers_idx.push_back(_layers.size() - 1);
+    auto layer_idx = static_cast<SizeType>(index_of(*layer));
+    if (DLMath::index_of(_loss_layers_idx, layer_idx) == -1)
+    {
+        _loss_layers_idx.push_back(layer_idx);
+    }
     _compute_input_layers();
     _compute_output_layers();
 }
-- 
2.43.0


From 909c94543bd9d251716086714e196bb3fab8f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 25/46] fix: refusing an edge to a layer outside the graph
 leaves the graph unchanged

---
 source/dnn/dlgraph.cpp | 20 ++++++++++++++++++++
 source/dnn/dlgraph.hpp | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index a42bc39..257e078 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -134,6 +134,7 @@ void DLGraph::add_edge(
 void DLGraph::add_arc_forward(
     std::vector<std::shared_ptr<Layer>> froms, std::shared_ptr<Layer> to)
 {
+    _check_nodes(froms, to);
     for (const auto& from: froms)
     {
         _forward_graph.add_arc(from, to);
@@ -146,6 +147,7 @@ void DLGraph::add_arc_forward(
 void DLGraph::add_arc_forward(
     std::vector<std::shared_ptr<Layer>> froms, std::shared_ptr<LossLayer> to)
 {
+    _check_nodes(froms, to);
     for (const auto& from: froms)
     {
         _training_forward_graph.add_arc(from, to);
@@ -155,6 +157,7 @@ void DLGraph::add_arc_forward(
 void DLGraph::add_arc_backward(
     std::vector<std::shared_ptr<Layer>> froms, std::shared_ptr<Layer> to)
 {
+    _check_nodes(froms, to);
     for (const auto& from: froms)
     {
         _backward_graph.add_arc(from, to);
@@ -171,6 +174,7 @@ void DLGraph::add_edge(
 void DLGraph::add_arc_forward(
     std::shared_ptr<Layer> from, std::vector<std::shared_ptr<Layer>> tos)
 {
+    _check_nodes(tos, from);
     for (const auto& to: tos)
     {
         _forward_graph.add_arc(from, to);
@@ -183,6 +187,7 @@ void DLGraph::add_arc_forward(
 void DLGraph::add_arc_backward(
     std::shared_ptr<Layer> from, std::vector<std::shared_ptr<Layer>> tos)
 {
+    _check_nodes(tos, from);
     for (const auto& to: tos)
     {
         _backward_graph.add_arc(from, to);
@@ -476,6 +481,21 @@ std::vector<DLGraph::Arc> DLGraph::_run(
     return ret;
 }
 
+void DLGraph::_check_nodes(
+    const std::vector<std::shared_ptr<Layer>>& layers,
+    const std::shared_ptr<Layer>& layer) const
+{
+    auto is_node = [&](const std::shared_ptr<Layer>& l)
+    {
+        return DLMath::index_of(_layers, l) != -1;
+    };
+    if (!is_node(layer) || !std::all_of(layers.begin(), layers.end(), is_node))
+    {
+        throw std::runtime_error(
+            "the layers of the edge are not included in the graph");
+    }
+}
+
 void DLGraph::_compute_input_layers()
 {
     _input_layers_idx.clear();
diff --git a/source/dnn/dlgraph.hpp b/source/dnn/dlgraph.hpp
index bc90d68..44dba5e 100644
--- a/source/dnn/dlgraph.hpp
+++ b/source/dnn/dlgraph.hpp
@@ -239,6 +239,16 @@ private:
         const Graph<std::shared_ptr<Layer>>& graph,
         const std::vector<SizeType>& start_idx) const;
 
+    /**
+     * \brief Check that all the layers belong to the graph, otherwise it
+     * throws a runtime_error. Called before adding several arcs, so that an
+     * invalid layer does not leave only a part of them in the graph.
+     * \param layers The layers to check.
+     * \param layer  Another layer to check.
+     */
+    void _check_nodes(const std::vector<std::shared_ptr<Layer>>& layers,
+                      const std::shared_ptr<Layer>& layer) const;
+
     void _compute_input_layers();
     void _compute_output_layers();
 
-- 
2.43.0


From 4148f00252c8c970816aab00b571578dbfd0299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 26/46] fix: an assigned or swapped model runs the layers of
 its own graph

---
 source/dnn/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..9496f5d 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -62,6 +62,10 @@ void swap(Model& lop, Model& rop)
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
     swap(lop._state, rop._state);
+
+    // The graphs clone their layers when they are assigned.
+    lop._state.update();
+    rop._state.update();
 }
 
 void Model::create_back_arc(
-- 
2.43.0


From 23effe47c24a074d8c29172f545007c4e6487139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 27/46] fix: a layer whose output is used several times gets
 the sum of the gradients

---
 source/dnn/model.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index 9496f5d..c630925 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -31,6 +31,7 @@
 #include "betterthreads/task_manager.hpp"
 
 #include <algorithm>
+#include <map>
 
 namespace EdgeLearning {
 
@@ -222,9 +223,24 @@ void Model::step(const std::vector<NumType>& input,
     {
         loss_layer->backward(not_used);
     }
+    std::map<Layer*, SizeType> missing_gradients;
     for (const auto& backward_arc: _state.backward_run)
     {
-        backward_arc.to->backward(backward_arc.from->last_input_gradient());
+        ++missing_gradients[backward_arc.to.get()];
+    }
+    std::map<Layer*, std::vector<NumType>> gradients;
+    for (const auto& backward_arc: _state.backward_run)
+    {
+        auto* layer = backward_arc.to.get();
+        const auto& gradient = backward_arc.from->last_input_gradient();
+        auto& sum = gradients[layer];
+        sum.resize(std::max(sum.size(), gradient.size()), NumType(0.0));
+        for (SizeType i = 0; i < gradient.size(); ++i)
+        {
+            sum[i] += gradient[i];
+        }
+        // The layer runs once, when its last gradient has arrived.
+        if (--missing_gradients[layer] == 0) layer->backward(sum);
     }
 }
 
-- 
2.43.0


From 7dc6b210d300fe37ec139086cb52ec4523c61ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:26 +0000
Subject: [PATCH 28/46] fix: the Adam optimizer keeps the moments of each
 parameter apart

---
 source/dnn/adam_optimizer.cpp | 26 ++++++++++++++------------
 source/dnn/adam_optimizer.hpp | 18 +++++++++++++++---
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index 0d84a63..0154c93 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -35,43 +35,45 @@ AdamOptimizer::AdamOptimizer(
     , _beta_1{beta_1}
     , _beta_2{beta_2}
     , _epsilon{epsilon}
-    , _m{0.0}
-    , _v{0.0}
-    , _t{1}
+    , _moments{}
 { }
 
 void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
 {
     SizeType param_count = layer_to.param_count();
+    if (param_count == 0) return;
+
+    auto& moments = _moments[&layer_to.param(0)];
+    moments.m.resize(param_count, NumType{0.0});
+    moments.v.resize(param_count, NumType{0.0});
     for (SizeType i = 0; i < param_count; ++i)
     {
         NumType& param    = layer_to.param(i);
         NumType& gradient = layer_from.gradient(i);
+        NumType& m        = moments.m[i];
+        NumType& v        = moments.v[i];
 
         // beta 1 - Momentum optimizer.
-        _m = _beta_1 * _m + (1 - _beta_1) * gradient;
+        m = _beta_1 * m + (1 - _beta_1) * gradient;
 
         // beta 2 - RMSProp optimizer.
-        _v = _beta_2 * _v + (1 - _beta_2) * (gradient * gradient);
+        v = _beta_2 * v + (1 - _beta_2) * (gradient * gradient);
 
         // bias correction.
-        auto m_corrected = _m / (1 - std::pow(_beta_1, _t));
-        auto v_corrected = _v / (1 - std::pow(_beta_2, _t));
+        auto m_corrected = m / (1 - std::pow(_beta_1, moments.t));
+        auto v_corrected = v / (1 - std::pow(_beta_2, moments.t));
 
         param -= _eta * (m_corrected / (std::sqrt(v_corrected) + _epsilon));
 
-        ++_t;
-
         // Reset the gradient accumulated again in the next training epoch.
         gradient = NumType{0.0};
     }
+    ++moments.t;
 }
 
 void AdamOptimizer::reset()
 {
-    _t = 1;
-    _m = 0;
-    _v = 0;
+    _moments.clear();
 }
 
 } // namespace EdgeLearning
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index f362c19..776da78 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -31,6 +31,9 @@
 
 #include "optimizer.hpp"
 
+#include <map>
+#include <vector>
+
 
 namespace EdgeLearning {
 
@@ -82,9 +85,18 @@ private:
     NumType _beta_2;  ///< \brief Exponential decay for the second moment.
     NumType _epsilon; ///< \brief A value near to zero.
 
-    NumType _m;  ///< \brief The first moment (momentum optimizer algorithm).
-    NumType _v;  ///< \brief The second moment (RMSProp optimizer algorithm).
-    SizeType _t; ///< \brief Incremental timestamp (temperature).
+    /**
+     * \brief The moments of the parameters of one layer.
+     */
+    struct Moments
+    {
+        std::vector<NumType> m; ///< \brief First moments (momentum optimizer).
+        std::vector<NumType> v; ///< \brief Second moments (RMSProp optimizer).
+        SizeType t = 1;         ///< \brief Incremental timestamp (temperature).
+    };
+
+    /// \brief Moments of each trained layer, by address of its parameters.
+    std::map<const NumType*, Moments> _moments;
 };
 
 } // namespace EdgeLearning
-- 
2.43.0


From 6b26c8bc10a11b9b15a077c861042597a2de78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:27 +0000
Subject: [PATCH 29/46] fix: parallel training updates the model when no task
 reads it anymore

---
 source/middleware/fnn.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 4aaacd0..3808835 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -103,10 +103,11 @@ public:
                     std::cout << "step " << i << std::endl;
                 }
 
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                // Train when no task reads the model parameters anymore.
+                std::vector<Model> models;
+                models.reserve(futures.size());
+                for (auto& f: futures) models.push_back(f.get());
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
@@ -147,10 +148,11 @@ public:
                     i += batch_size;
                 }
 
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                // Train when no task reads the model parameters anymore.
+                std::vector<Model> models;
+                models.reserve(futures.size());
+                for (auto& f: futures) models.push_back(f.get());
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
-- 
2.43.0


From 918db7d4fa3966144a578fb7ee11e879630e84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:37 +0000
Subject: [PATCH 30/46] fix: a dropout layer passes its input on when
 predicting

---
 source/dnn/dropout.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 915284f..646e835 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -70,7 +70,8 @@ public:
         const std::vector<NumType>& inputs) override
     {
         _last_input = inputs.data();
-        return FeedforwardLayer::forward(inputs);
+        _output_activations = inputs;
+        return FeedforwardLayer::forward(_output_activations);
     }
 
     /**
-- 
2.43.0


From 354fccdcf62ab3f8b8220b9b88aa70861d9b3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:37 +0000
Subject: [PATCH 31/46] fix: a convolutional layer adds its biases to the
 output

---
 source/dnn/convolutional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..4b711fc 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -106,6 +106,12 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // Each filter adds its bias to all its results.
+    for (SizeType i = 0; i < _output_activations.size(); ++i)
+    {
+        _output_activations[i] += _biases[i % _n_filters];
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0


From 4e53d004ac2ddd0bb99747250393375f3b419de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 32/46] fix: the bias gradients of a convolutional layer
 accumulate over the samples

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 4b711fc..d72041f 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -135,7 +135,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From 66531db1ff26b194c77fe0ef6a9f7c696227c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 33/46] fix: a window whose first element is the maximum sends
 its gradient there

---
 source/dnn/max_pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..ab7e7cb 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -72,7 +72,8 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
 
             NumType max = src[row * static_cast<int64_t>(src_step)
                               + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From 3f766e0cd65346abf68e5b3b6f5f0a633b591708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 34/46] fix: average pooling sends gradient to every element of
 the window

---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From 32aa02898aa617216e1487f08fbf08362dd21d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:06 +0000
Subject: [PATCH 35/46] fix: an all-zero target is refused without counting its
 loss

---
 source/dnn/cce_loss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/cce_loss.cpp b/source/dnn/cce_loss.cpp
index d268b87..1d1da22 100644
--- a/source/dnn/cce_loss.cpp
+++ b/source/dnn/cce_loss.cpp
@@ -57,6 +57,7 @@ const std::vector<NumType>& CategoricalCrossEntropyLossLayer::forward(
     {
         throw std::runtime_error("_target is empty, set_target not called");
     }
+    _active = _argactive();
     _loss = DLMath::cross_entropy(_target.data(), inputs.data(), in_size);
     _cumulative_loss += _loss;
     
@@ -64,7 +65,6 @@ const std::vector<NumType>& CategoricalCrossEntropyLossLayer::forward(
     // NumType max_value = std::get<0>(max);
     SizeType max_index = std::get<1>(max);
 
-    _active = _argactive();
     if (max_index == _active)
     {
         ++_correct;
-- 
2.43.0


From 8824376e1b78bc06f29f9e7a0e127ea6bc96dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 36/46] fix: the saturation value of an ELU layer is saved and
 loaded

---
 source/dnn/activation.cpp | 18 ++++++++++++++++++
 source/dnn/activation.hpp | 13 +++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/source/dnn/activation.cpp b/source/dnn/activation.cpp
index 8509aa1..e8ae70b 100644
--- a/source/dnn/activation.cpp
+++ b/source/dnn/activation.cpp
@@ -130,6 +130,24 @@ const std::vector<NumType>& EluLayer::backward(
                     gradients.data(), size);
     return ActivationLayer::backward(_input_gradients);
 }
+
+Json EluLayer::dump() const
+{
+    Json out = ActivationLayer::dump();
+
+    Json others;
+    others["alpha"] = _alpha;
+    out[dump_fields.at(DumpFields::OTHERS)] = others;
+    return out;
+}
+
+void EluLayer::load(const Json& in)
+{
+    ActivationLayer::load(in);
+
+    _alpha = in.at(dump_fields.at(DumpFields::OTHERS))
+        .at("alpha").as<NumType>();
+}
 // =============================================================================
 
 // ================================ Softmax ====================================
diff --git a/source/dnn/activation.hpp b/source/dnn/activation.hpp
index fe73ccb..4c4f12d 100644
--- a/source/dnn/activation.hpp
+++ b/source/dnn/activation.hpp
@@ -143,6 +143,19 @@ public:
         const std::vector<NumType>& inputs) override;
     const std::vector<NumType>& backward(
         const std::vector<NumType>& gradients) override;
+
+    /**
+     * \brief Save the layer infos to disk.
+     * \return Json Layer dump.
+     */
+    Json dump() const override;
+
+    /**
+     * \brief Load the layer infos from disk.
+     * \param in const Json& Json to read.
+     */
+    void load(const Json& in) override;
+
 private:
     NumType _alpha;
 };
-- 
2.43.0


From fb675957347e5b84a5e730e4e53ccfc106abd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 37/46] fix: a recurrent layer of one time step uses its hidden
 state

---
 source/dnn/recurrent.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..e426eee 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -131,6 +131,16 @@ const std::vector<NumType>& RecurrentLayer::forward(
         curr_hs_idx = t;
         next_hs_idx = (t == (_time_steps - 1)) ? 0 : t + 1;
 
+        /*
+         * Compute the product of the hidden state with its
+         * hidden_to_hidden weights, before the next hidden state takes its
+         * place.
+         * tmp = W_hh * h(t)
+         */
+        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
+            _hidden_state.data() + curr_hs_idx * _hidden_size, 
+            _hidden_size, _hidden_size);
+
         /*
          * Compute the product of the input with its input_to_hidden weights.
          * h(t+1) = W_ih * x 
@@ -141,13 +151,10 @@ const std::vector<NumType>& RecurrentLayer::forward(
             curr_sequence, _hidden_size, _shared_fields->input_size());
 
         /*
-         * Compute the product of the hidden state with its 
-         * hidden_to_hidden weights and the sum with the to_hidden bias.
+         * Sum with the product of the hidden state and with the to_hidden
+         * bias.
          * h(t+1) += W_hh * h(t) + b_h
          */
-        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
-            _hidden_state.data() + curr_hs_idx * _hidden_size, 
-            _hidden_size, _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
-- 
2.43.0


From 9a069fdd9cfe3fc8641e1aa64d3a2be0d8f4ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 38/46] fix: the gradients of a recurrent layer use the
 derivative at its hidden state

---
 source/dnn/recurrent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index e426eee..b2fecb0 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -292,7 +292,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
             case HiddenActivation::TanH:
             default:
             {
-                DLMath::tanh_1<NumType>(
+                // The hidden state is already a result of tanh.
+                DLMath::tanh_1_opt<NumType>(
                     next_hidden_state.data(), 
                     _hidden_state.data() + curr_hs_idx * _hidden_size, 
                     _hidden_size);
-- 
2.43.0


From 7a6ad67a28daab06898011d3a3a94c816654fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 39/46] fix: the gradients of a recurrent layer use the hidden
 state the sequence started from

---
 source/dnn/recurrent.cpp | 13 ++++++++++---
 source/dnn/recurrent.hpp |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index b2fecb0..9bc4332 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -124,6 +124,11 @@ const std::vector<NumType>& RecurrentLayer::forward(
 
     auto *tmp_mul = new NumType[_hidden_size];
 
+    // The last hidden state will take the place of the first one.
+    _first_hidden_state.assign(
+        _hidden_state.begin(),
+        _hidden_state.begin() + static_cast<std::int64_t>(_hidden_size));
+
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
     {
@@ -226,7 +231,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
 {
     const NumType* curr_sequence_gradients; //< Ptr to the current gradients.
     SizeType curr_hs_idx; //< Current hidden state index.
-    SizeType prev_hs_idx; //< Previous hidden state index.
+    const NumType* prev_hidden_state; //< Ptr to the previous hidden state.
 
     std::vector<NumType> next_hidden_state(
         static_cast<std::size_t>(_hidden_size), NumType{0.0});
@@ -237,7 +242,9 @@ const std::vector<NumType>& RecurrentLayer::backward(
     {
         SizeType t_idx = t - 1;
         curr_hs_idx = (t >= _time_steps) ? 0 : t;
-        prev_hs_idx = t_idx;
+        prev_hidden_state = (t_idx == 0)
+            ? _first_hidden_state.data()
+            : _hidden_state.data() + t_idx * _hidden_size;
         curr_sequence_gradients = gradients.data() + (t_idx * _shared_fields->output_size());
 
         // Bias gradient to output.
@@ -327,7 +334,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
             {
                 _weights_h_to_h_gradients[(i * _hidden_size) + j] += 
                     next_hidden_state[i] 
-                    * _hidden_state[(SizeType(prev_hs_idx) * _hidden_size) + j];
+                    * prev_hidden_state[j];
             }
         }
 
diff --git a/source/dnn/recurrent.hpp b/source/dnn/recurrent.hpp
index 9c51d22..a46a91e 100644
--- a/source/dnn/recurrent.hpp
+++ b/source/dnn/recurrent.hpp
@@ -158,6 +158,10 @@ private:
     SizeType _hidden_size;
 
     std::vector<NumType> _hidden_state;
+
+    /// \brief Hidden state the last sequence started from. Size: _hidden_size.
+    std::vector<NumType> _first_hidden_state;
+
     SizeType _time_steps;
 
     // == Layer parameters ==
-- 
2.43.0


From 205bf48aea4ab8eeb2bd00efb54c906b6aea56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 40/46] fix: a further fit of a network uses its own batch size

---
 source/dnn/loss.cpp       | 6 ++++++
 source/dnn/loss.hpp       | 6 ++++++
 source/middleware/fnn.hpp | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 5b30ebf..470d615 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -53,6 +53,12 @@ void LossLayer::set_target(const std::vector<NumType>& target)
     _target = target;
 }
 
+void LossLayer::batch_size(SizeType batch_size)
+{
+    _inv_batch_size = NumType{1.0}
+        / static_cast<NumType>(std::max(batch_size, SizeType{1}));
+}
+
 NumType LossLayer::accuracy() const
 {
     return static_cast<NumType>(_correct) 
diff --git a/source/dnn/loss.hpp b/source/dnn/loss.hpp
index 2b0220e..1bed186 100644
--- a/source/dnn/loss.hpp
+++ b/source/dnn/loss.hpp
@@ -115,6 +115,12 @@ public:
      */
     void set_target(const std::vector<NumType>& target);
 
+    /**
+     * \brief Setter of the amount of entries the gradients are averaged over.
+     * \param batch_size SizeType The size of the batch.
+     */
+    void batch_size(SizeType batch_size);
+
     /**
      * \brief Calculate and return the accuracy until the last forward
      * iteration.
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 3808835..d076e68 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -221,6 +221,10 @@ public:
                 _m.create_loss_edge(output_layer, loss_layer);
             }
         }
+        for (const auto& loss_layer: _m.loss_layers())
+        {
+            loss_layer->batch_size(batch_size);
+        }
 
         // Train.
         _m.init(MapInit<Framework::EDGE_LEARNING, IT>::type,
-- 
2.43.0


From 902d698dc7d0bb946f45be9d0cc0010a610c16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 41/46] fix: dropout keeps the shape of its input in a network
 description

---
 source/middleware/fnn.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index d076e68..a3163df 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -186,7 +186,11 @@ public:
 
         auto layer = _add_layer(ld, _output_shape);
         if (!layer) return;
-        _output_shape = layer->output_shape();
+        if (ld.type() != LayerType::Dropout)
+        {
+            // Dropout does not change the shape.
+            _output_shape = layer->output_shape();
+        }
         if (_m.layers().size() > 1)
         {
             _m.create_edge(_m.layers()[_m.layers().size() - 2], layer);
-- 
2.43.0


From 4c451a56dfbbc7b12d90821807057b988db3940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 42/46] fix: a refused compile leaves no partial network behind

---
 source/middleware/nn.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/middleware/nn.hpp b/source/middleware/nn.hpp
index b7cc2d4..7f97209 100644
--- a/source/middleware/nn.hpp
+++ b/source/middleware/nn.hpp
@@ -240,41 +240,40 @@ public:
                  OptimizerType optimizer = OptimizerType::ADAM,
                  InitType init = InitType::AUTO) override
     {
-        _optimizer = optimizer;
-        _loss = loss;
+        typename StaticNeuralNetwork<T>::SharedPtr model_ptr;
         if (loss == LossType::MSE && init == InitType::HE_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::MSE, InitType::HE_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::MSE && init == InitType::XAVIER_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::MSE, InitType::XAVIER_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::MSE && init == InitType::AUTO)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::MSE, InitType::AUTO, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::CCE && init == InitType::HE_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::CCE, InitType::HE_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::CCE && init == InitType::XAVIER_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::CCE, InitType::XAVIER_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::CCE && init == InitType::AUTO)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::CCE, InitType::AUTO, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
@@ -285,8 +284,12 @@ public:
 
         for (const auto& l: _layers)
         {
-            _model_ptr->add(l);
+            model_ptr->add(l);
         }
+
+        _model_ptr = model_ptr;
+        _optimizer = optimizer;
+        _loss = loss;
     }
 
     Dataset<T> predict(Dataset<T>& data) override
-- 
2.43.0


From 54d617afe593b1eec5b692f0488f2143cf6d6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:52 +0000
Subject: [PATCH 43/46] fix: the range of random values is not rounded to the
 type of the value

---
 source/dnn/dlmath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..9927336 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -240,7 +240,9 @@ public:
     template <typename T>
     static T rand(T from, T to, RneType& seed)
     {
-        return uniform_pdf<T>((to + from) / T(2), to - from)(seed);
+        const auto lower = static_cast<NumType>(from);
+        const auto upper = static_cast<NumType>(to);
+        return uniform_pdf<T>((upper + lower) / 2.0, upper - lower)(seed);
     }
 
     /**
-- 
2.43.0


From a783756110dc96c10aef61ab4b2e78e756ae6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 44/46] fix: an optimizer can be destroyed through its base

---
 source/dnn/optimizer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/dnn/optimizer.hpp b/source/dnn/optimizer.hpp
index c3fed3f..f63a0aa 100644
--- a/source/dnn/optimizer.hpp
+++ b/source/dnn/optimizer.hpp
@@ -41,6 +41,7 @@ class Optimizer
 {
 public:
     Optimizer() {}
+    virtual ~Optimizer() = default;
 
     /**
      * \brief Wrapper of private train method:
-- 
2.43.0


From 91e95cadf11cb58e2e48e62d696039846a529afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:04 +0000
Subject: [PATCH 45/46] fix: the perceived brightness of a pixel adds the blue
 channel

---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index bee90a8..a7c2099 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From d68ce4e28745c635c097ceb73506d19b6922c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 46/46] fix: layers and models made in several threads get
 different names

---
 source/dnn/dlmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9927336..2a2878c 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -29,6 +29,7 @@
 #include "type.hpp"
 #include "betterthreads/task_manager.hpp"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <cassert>
@@ -457,7 +458,7 @@ public:
 
     static SizeType unique()
     {
-        static SizeType id = 0;
+        static std::atomic<SizeType> id{0};
         return id++;
     }
 
-- 
2.43.0

