From 25e7ff7ac418b5f0ed8d0725e90939b809368c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 01/47] fix: decode unpadded and empty base64 without
 out-of-bounds access

---
 core/encoding/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index 7b50fad..a0ab008 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -43,6 +43,8 @@ static const uint8_t base64DecodeTable[] = {
 
 std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
+	if (!data.size()) return {};
+
 	//	check base64 string validity real quick
 	for (size_t i = 0; i < data.size(); i++) {
 		auto symbol = data[i];
@@ -66,14 +68,13 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	if (incompleteBlockSize > 0) {
 
-		result.resize(result.size() + 1);
+		result.resize(result.size() + (incompleteBlockSize == 3 ? 2 : 1));
 
 		if (incompleteBlockSize == 3) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
 		} else if (incompleteBlockSize == 2) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], 0);
 		} else {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], 0);
 		}
-- 
2.43.0


From d2cfd92b677e77b3ab2808b93db639120c44b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 02/47] fix: reject punctuation characters in hex strings

---
 core/encoding/hex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/encoding/hex.cpp b/core/encoding/hex.cpp
index 800fda2..9f49e81 100644
--- a/core/encoding/hex.cpp
+++ b/core/encoding/hex.cpp
@@ -42,7 +42,7 @@ uint8_t Encoding::hexToByte(HexByte hexbyte) {
 
 	for (size_t i = 0; i < 2; i++) {
 		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
-		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
+		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0 || (charcode > 9 && charcode < 17))
 			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
 		temp.string[i] = hex_decode_table[charcode];
 	}
-- 
2.43.0


From cc5a75e4de1346bc7d9025847c16f686f07a53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 03/47] fix: percent-encode control and non-ASCII bytes in URI
 components

---
 core/encoding/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/encoding/url.cpp b/core/encoding/url.cpp
index 9051e05..a15620d 100644
--- a/core/encoding/url.cpp
+++ b/core/encoding/url.cpp
@@ -18,7 +18,7 @@ std::string Encoding::encodeURIComponent(const std::string& input) {
 
 	for (auto symbol : input) {
 
-		if (escapeChars.contains(symbol)) {
+		if (symbol < ' ' || symbol == 0x7F || (symbol & 0x80) || escapeChars.contains(symbol)) {
 			result.push_back('%');
 			result.append(byteToHex(symbol).string);
 			continue;
-- 
2.43.0


From 67d5b367f82db319ee3f6a2227250065cad0cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 04/47] fix: guard the shared id generator against concurrent
 use

---
 core/crypto/uid.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/crypto/uid.cpp b/core/crypto/uid.cpp
index 02511de..599e805 100644
--- a/core/crypto/uid.cpp
+++ b/core/crypto/uid.cpp
@@ -3,11 +3,13 @@
 #include "../polyfill/polyfill.hpp"
 
 #include <random>
+#include <mutex>
 
 using namespace Lambda;
 using namespace Lambda::Crypto;
 
 static auto rng_gen = std::mt19937(std::random_device{}());
+static std::mutex rng_mtx;
 static auto rng_dist = std::uniform_int_distribution<int32_t>(1, std::numeric_limits<int32_t>::max());
 
 ShortID::ShortID() {
@@ -35,7 +37,11 @@ ShortID& ShortID::operator=(const ShortID& other) noexcept {
 }
 
 void ShortID::update() noexcept {
-	this->m_id.u32 = rng_dist(rng_gen);
+	{
+		std::lock_guard<std::mutex> lock(rng_mtx);
+		this->m_id.u32 = rng_dist(rng_gen);
+	}
+
 	this->m_serialize();
 }
 
-- 
2.43.0


From 0e68e7cedaad23a0773d91a6730c3db9e0ec8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 05/47] fix: endsWith with repeated matches and long suffixes

---
 core/polyfill/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index a9cd738..b530f0f 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -58,7 +58,7 @@ bool Strings::includes(const std::string& str, const std::vector <std::string>&
 }
 
 bool Strings::endsWith(const std::string& str, const std::string& substr) {
-	return str.find(substr) == (str.size() - substr.size());
+	return str.size() >= substr.size() && str.compare(str.size() - substr.size(), substr.size(), substr) == 0;
 }
 bool Strings::startsWith(const std::string& str, const std::string& substr) {
 	return str.find(substr) == 0;
-- 
2.43.0


From 6ee006f0c6ec3f57af73e4df3cfa011083e90b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 06/47] fix: trimming an empty string reads out of bounds

---
 core/polyfill/strings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index b530f0f..3533269 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -69,6 +69,8 @@ void Strings::trim(std::string& str) {
 	//	list of characters to remove
 	static const std::set<char> whitespaceChars = { '\r', '\n', '\t', ' ' };
 
+	if (!str.size()) return;
+
 	//	forward pass
 	size_t pos_from = 0;
 	while (pos_from < str.size()) {
-- 
2.43.0


From 23dda42189ff371cd5a4705b9a7a38837f0049be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 07/47] fix: replaceAll with an empty needle never ends

---
 core/polyfill/strings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 3533269..c69954a 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -172,6 +172,8 @@ std::string Strings::replace(const std::string& base, const std::string& sub, co
 }
 
 void Strings::replaceAll(std::string& base, const std::string& sub, const std::string& replacement) {
+	if (!sub.size()) return;
+
 	size_t index = base.find(sub);
 	while (index != std::string::npos) {
 		base.replace(index, sub.size(), replacement);
-- 
2.43.0


From 7126a55c6444aa76837ff7acc21d05f4364f71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 08/47] fix: join drops separators after empty leading items

---
 core/polyfill/strings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index c69954a..95bd052 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -151,9 +151,9 @@ std::string Strings::join(const std::vector<std::string>& strs, const char* toke
 
 	std::string result;
 
-	for(auto& str : strs) {
-		if (result.size() > 0) result += token;
-		result += str;
+	for (size_t i = 0; i < strs.size(); i++) {
+		if (i > 0) result += token;
+		result += strs[i];
 	}
 
 	return result;
-- 
2.43.0


From f01d4a1be9ca7824576ae291d3e81597308e7eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 09/47] fix: escape JSON strings and keys and print floats as
 the standard requires

---
 core/json/stringify.cpp | 74 +++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index 3049991..f259f9d 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -1,18 +1,45 @@
 #include "./json.hpp"
 
 #include <map>
+#include <charconv>
+#include <cmath>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
 static const std::map<char, std::string> stringEscapeTable = {
-	{ '\n', "\\\\n" },
-	{ '\r', "\\\\r" },
-	{ '\t', "\\\\t" },
-	{ '\"', "\\\"" }
+	{ '\n', "\\n" },
+	{ '\r', "\\r" },
+	{ '\t', "\\t" },
+	{ '\"', "\\\"" },
+	{ '\\', "\\\\" }
 };
 
+static std::string stringifyText(const std::string& textcontent) {
+
+	std::string temp;
+	temp.reserve(textcontent.size());
+
+	for (auto symbol : textcontent) {
+
+		auto escaped = stringEscapeTable.find(symbol);
+		if (escaped != stringEscapeTable.end()) {
+			temp.append(escaped->second);
+			continue;
+		}
+
+		if (symbol >= 0 && symbol < ' ') {
+			temp.append({ '\\', 'u', '0', '0', (symbol & 0x10) ? '1' : '0', "0123456789abcdef"[symbol & 0x0F] });
+			continue;
+		}
+
+		temp.push_back(symbol);
+	}
+
+	return '\"' + temp + '\"';
+}
+
 std::string JSON::stringify(const Property& data) {
 
 	switch (data.type()) {
@@ -20,31 +47,28 @@ std::string JSON::stringify(const Property& data) {
 		case JSTypes::Integer:
 			return std::to_string(data.asInt());
 
-		case JSTypes::Float:
-			return std::to_string(data.asFloat());
+		case JSTypes::Float: {
 
-		case JSTypes::Boolean:
-			return data.asBool() ? "true" : "false";
-
-		case JSTypes::String: {
-
-			auto textcontent = data.asString();
-			std::string temp;
-			temp.reserve(textcontent.size());
+			const auto value = data.asFloat();
+			if (!std::isfinite(value)) return "null";
 
-			for (auto symbol : textcontent) {
+			//	shortest text that reads back as the same value
+			char textbuff[128];
+			const auto asDouble = static_cast<double>(value);
+			const auto textend = (asDouble == value
+				? std::to_chars(textbuff, textbuff + sizeof(textbuff), asDouble)
+				: std::to_chars(textbuff, textbuff + sizeof(textbuff), value)).ptr;
 
-				auto escaped = stringEscapeTable.find(symbol);
-				if (escaped != stringEscapeTable.end()) {
-					temp.append(escaped->second);
-					continue;
-				}
+			std::string temp(textbuff, textend);
+			if (temp.find_first_of(".e") == std::string::npos) temp.append(".0");
+			return temp;
+		}
 
-				temp.push_back(symbol);
-			}
+		case JSTypes::Boolean:
+			return data.asBool() ? "true" : "false";
 
-			return '\"' + temp + '\"';
-		}
+		case JSTypes::String:
+			return stringifyText(data.asString());
 
 		case JSTypes::Null:
 			return "null";
@@ -67,7 +91,7 @@ std::string JSON::stringify(const Property& data) {
 
 			for (const auto& entry : data.asMap()) {
 				if (temp.size()) temp.push_back(',');
-				temp.append('\"' + entry.first + "\":");
+				temp.append(stringifyText(entry.first) + ':');
 				temp.append(stringify(entry.second));
 			}
 
-- 
2.43.0


From 4bbfc6ab71ac90d18affc9c1f55fe74bc5466bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 10/47] fix: assigning JSON values leaks and keeps the old data

---
 core/json/property.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/json/property.cpp b/core/json/property.cpp
index ea9bcce..96905ee 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -92,7 +92,18 @@ Property::Property(Property&& other) {
 }
 
 Property Property::operator=(const Property& other) {
-	this->clone(other);
+
+	//	the source may be a part of this very value, so copy it first
+	Property temp(other);
+
+	std::swap(this->internalType, temp.internalType);
+	std::swap(this->internalDataFloat, temp.internalDataFloat);
+	std::swap(this->internalDataInt, temp.internalDataInt);
+	std::swap(this->internalDataBool, temp.internalDataBool);
+	std::swap(this->internalDataStr, temp.internalDataStr);
+	std::swap(this->internalDataArray, temp.internalDataArray);
+	std::swap(this->internalDataMap, temp.internalDataMap);
+
 	return *this;
 }
 
-- 
2.43.0


From 378cdb36bd0dcfac64839bd770a2acad5f085613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 11/47] fix: parse JSON escapes, string contents, numbers and
 empty containers by the standard

---
 core/json/parse.cpp | 118 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 99 insertions(+), 19 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 52593b5..9fd07ed 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,20 +1,87 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
-#include <array>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
-static const std::array<std::pair<std::string, std::string>, 4> stringUnescapeTable = {
-	std::make_pair("\\\\n", "\n"),
-	std::make_pair("\\\\r", "\r"),
-	std::make_pair("\\\\t", "\t"),
-	std::make_pair("\\\"", "\"")
-};
+//	nesting beyond this level is rejected instead of exhausting the stack
+static const size_t maxNestingDepth = 256;
+
+static void appendCodepoint(std::string& output, uint32_t code) {
+	if (code < 0x80) {
+		output.push_back(code);
+	} else if (code < 0x800) {
+		output.push_back(0xC0 | (code >> 6));
+		output.push_back(0x80 | (code & 0x3F));
+	} else if (code < 0x10000) {
+		output.push_back(0xE0 | (code >> 12));
+		output.push_back(0x80 | ((code >> 6) & 0x3F));
+		output.push_back(0x80 | (code & 0x3F));
+	} else {
+		output.push_back(0xF0 | (code >> 18));
+		output.push_back(0x80 | ((code >> 12) & 0x3F));
+		output.push_back(0x80 | ((code >> 6) & 0x3F));
+		output.push_back(0x80 | (code & 0x3F));
+	}
+}
 
-Property JSON::parse(const std::string& text) {
+static uint32_t readCodeunit(const std::string& text, size_t position) {
+
+	const auto digits = position < text.size() ? text.substr(position, 4) : std::string();
+
+	if (digits.size() != 4 || digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+		throw std::runtime_error("Invalid JSON: malformed unicode escape");
+
+	return std::stoul(digits, nullptr, 16);
+}
+
+static std::string unescapeText(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (size_t i = 0; i < text.size(); i++) {
+
+		if (text[i] != '\\' || i + 1 >= text.size()) {
+			result.push_back(text[i]);
+			continue;
+		}
+
+		switch (text[++i]) {
+			case 'n': result.push_back('\n'); break;
+			case 'r': result.push_back('\r'); break;
+			case 't': result.push_back('\t'); break;
+			case 'b': result.push_back('\b'); break;
+			case 'f': result.push_back('\f'); break;
+			case 'u': {
+
+				auto code = readCodeunit(text, i + 1);
+				i += 4;
+
+				//	surrogate pairs take two escapes
+				if (code >= 0xD800 && code < 0xDC00 && text.compare(i + 1, 2, "\\u") == 0) {
+					const auto second = readCodeunit(text, i + 3);
+					if (second >= 0xDC00 && second < 0xE000) {
+						code = 0x10000 + (((code - 0xD800) << 10) | (second - 0xDC00));
+						i += 6;
+					}
+				}
+
+				appendCodepoint(result, code);
+
+			} break;
+			default: result.push_back(text[i]); break;
+		}
+	}
+
+	return result;
+}
+
+static Property parseValue(const std::string& text, size_t depth) {
+
+	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: nested too deep");
 
 	auto objectText = Strings::trim(text);
 	if (!objectText.size()) throw std::runtime_error("Invalid JSON: empty text");
@@ -32,13 +99,10 @@ Property JSON::parse(const std::string& text) {
 			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
 				throw std::runtime_error("Invalid JSON: unescaped double quote");
 
-			for (const auto& symbol : stringUnescapeTable)
-				Strings::replaceAll(textcontent, symbol.first, symbol.second);
+			return Property(unescapeText(textcontent));
 
-			return Property(textcontent);
-
-		} else if (isdigit(objectText.at(0))) {
-			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+		} else if (isdigit(objectText.at(0)) || objectText.at(0) == '-') {
+			return objectText.find_first_of(".eE") == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
@@ -57,6 +121,13 @@ Property JSON::parse(const std::string& text) {
 
 	for (size_t i = segmentStart; i < objectText.size() - 1; i++) {
 
+		//	nothing inside a string has a structural meaning
+		if (ptnss_string) {
+			if (objectText[i] == '\\') i++;
+			else if (objectText[i] == '\"') ptnss_string = false;
+			continue;
+		}
+
 		switch (objectText[i]) {
 			case '{':
 				ptnss_object++;
@@ -71,7 +142,7 @@ Property JSON::parse(const std::string& text) {
 				ptnss_array--;
 				break;
 			case '\"':
-				ptnss_string = !ptnss_string;
+				ptnss_string = true;
 				break;
 			default: break;
 		}
@@ -84,6 +155,9 @@ Property JSON::parse(const std::string& text) {
 
 	entries.push_back(objectText.substr(segmentStart, objectText.size() - segmentStart - 1));
 
+	if (entries.size() == 1 && objectText.size() > 1 && entries[0].find_first_not_of(" \t\r\n") == std::string::npos)
+		return isArray ? Property(Array()) : Property(Map());
+
 	if (isArray) {
 
 		std::vector<Property> temp;
@@ -91,7 +165,7 @@ Property JSON::parse(const std::string& text) {
 		for (const auto& entry : entries) {
 			auto entryTrimmed = Strings::trim(entry);
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
-			temp.push_back(parse(entryTrimmed));
+			temp.push_back(parseValue(entryTrimmed, depth + 1));
 		}
 
 		return Property(temp);
@@ -109,7 +183,9 @@ Property JSON::parse(const std::string& text) {
 			bool insideString = false;
 
 			for (size_t i = 0; i < entryTrimmed.size(); i++) {
-				if (entryTrimmed[i] == '\"') {
+				if (insideString && entryTrimmed[i] == '\\') {
+					i++;
+				} else if (entryTrimmed[i] == '\"') {
 					insideString = !insideString;
 				} else if (!insideString && entryTrimmed[i] == ':') {
 					keyEnded = i;
@@ -121,11 +197,15 @@ Property JSON::parse(const std::string& text) {
 
 			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? key.substr(1, key.size() - 2) : key;
+			auto useKey = key.starts_with('\"') ? unescapeText(key.substr(1, key.size() - 2)) : key;
 
-			temp[useKey] = parse(value);
+			temp[useKey] = parseValue(value, depth + 1);
 		}
 
 		return Property(temp);
 	}
 }
+
+Property JSON::parse(const std::string& text) {
+	return parseValue(text, 0);
+}
-- 
2.43.0


From c68ee668d0e5296d665b67d8e20391dde93a2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 12/47] fix: keep query data after '?' in values, find query
 keys in any case, IPv6 hosts, empty protocols

---
 core/http/url.cpp             | 6 +++---
 core/http/urlsearchparams.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index 102c389..768f485 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -31,7 +31,7 @@ void URL::parse(const std::string& href) {
 
 			//	alright so let's start with getting url schema. that's the "http" thing
 			cursor = href.find("://");
-			if (cursor == std::string::npos) {
+			if (cursor == std::string::npos || cursor == 0) {
 				throw std::runtime_error("protocol not specified");
 			}
 
@@ -63,8 +63,8 @@ void URL::parse(const std::string& href) {
 
 			this->host = addrString;
 
-			//	get hostname and port
-			cursor = addrString.find(':');
+			//	get hostname and port (colons inside of an IPv6 literal don't count)
+			cursor = addrString.find(':', addrString.starts_with('[') ? addrString.find(']') : 0);
 			if (cursor != std::string::npos) {
 				this->port = addrString.substr(cursor + 1);
 				this->hostname = addrString.substr(0, cursor);
diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index 67baeb4..7bab67a 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -5,8 +5,10 @@ using namespace Lambda::HTTP;
 
 URLSearchParams::URLSearchParams(const std::string& queries) {
 
-	auto qmark = queries.find_last_of('?');
-	auto entries = Strings::split(qmark != std::string::npos ? queries.substr(qmark + 1) : queries, '&');
+	//	only a question mark that comes before any key or value starts the query
+	const auto qmark = queries.find_first_of("?=&");
+	const bool hasPrefix = qmark != std::string::npos && queries[qmark] == '?';
+	const auto entries = Strings::split(hasPrefix ? queries.substr(qmark + 1) : queries, '&');
 	
 	for (const auto& entry : entries) {
 
@@ -18,7 +20,7 @@ URLSearchParams::URLSearchParams(const std::string& queries) {
 
 		if (!key.size() || !value.size()) continue;
 
-		this->m_data[key] = { value };
+		this->set(key, value);
 	}
 }
 
-- 
2.43.0


From 8e1308bbddd543283a59807c0ad3d0fa497a282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 13/47] fix: cookie names parse in any case, copies keep
 pending changes, deletion expires in the past

---
 core/http/cookies.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index e588f68..75e4fa2 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -2,6 +2,7 @@
 #include "../polyfill/polyfill.hpp"
 
 #include <iterator>
+#include <utility>
 
 using namespace Lambda::HTTP;
 
@@ -19,25 +20,29 @@ Cookies::Cookies(const std::string& cookiestring) {
 
 		if (!key.size() || !value.size()) continue;
 
-		this->m_data[key] = { value };
+		this->m_data[Strings::toLowerCase(std::as_const(key))] = value;
 	}
 }
 
 Cookies::Cookies(const Cookies& other) {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 }
 
 Cookies::Cookies(Cookies&& other) {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 }
 
 Cookies& Cookies::operator=(const Cookies& other) noexcept {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 	return *this;
 }
 
 Cookies& Cookies::operator=(Cookies&& other) noexcept {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 	return *this;
 }
 
@@ -69,7 +74,7 @@ void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
 	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
-	this->m_set_queue[keyNormalized] = { "", { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } };
+	this->m_set_queue[keyNormalized] = { "", { CookieParams { "expires", "Thu, 01 Jan 1970 00:00:00 GMT" } } };
 }
 
 std::vector<KVpair> Cookies::entries() const {
-- 
2.43.0


From bc8f475976995e174c35b61340ab7a41904a1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 14/47] fix: basic auth passwords that are empty or contain
 colons, scheme must come first

---
 core/http/auth.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index fe1e612..7cd84c6 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -8,28 +8,29 @@ using namespace Lambda::HTTP::Auth;
 
 std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header) {
 
-	if (!Strings::includes(Strings::toLowerCase(header), "basic")) {
-		return std::nullopt;
-	}
+	const auto authHeader = Strings::trim(header);
 
-	const auto authStringStart = header.find_last_of(' ');
-	if (authStringStart == std::string::npos) {
+	const auto schemeEnd = authHeader.find_first_of(" \t");
+	if (schemeEnd == std::string::npos || Strings::toLowerCase(authHeader.substr(0, schemeEnd)) != "basic") {
 		return std::nullopt;
 	}
 
-	const auto authString = header.substr(authStringStart + 1);
+	const auto authString = Strings::trim(authHeader.substr(schemeEnd));
 	if (!authString.size()) {
 		return std::nullopt;
 	}
 
-	const auto authStringDecoded = Encoding::fromBase64(authString);
-	const auto authComponents = Strings::split(std::string(authStringDecoded.begin(), authStringDecoded.end()), ":");
-	if (authComponents.size() < 2) {
+	const auto decodedBytes = Encoding::fromBase64(authString);
+	const auto credentials = std::string(decodedBytes.begin(), decodedBytes.end());
+
+	//	only the first colon is a separator, the password may contain any number of them
+	const auto separator = credentials.find(':');
+	if (separator == std::string::npos) {
 		return std::nullopt;
 	}
 
 	return BasicCredentials {
-		authComponents[0],
-		authComponents[1]
+		credentials.substr(0, separator),
+		credentials.substr(separator + 1)
 	};
 }
-- 
2.43.0


From 5fbb01b6e3e2079b20e33bceac596bb7df6e2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 15/47] fix: zlib reporting that no progress is possible is not
 an error

---
 core/compression/zlib_oneshot.cpp           | 4 ++--
 core/compression/zlib_stream_compress.cpp   | 2 --
 core/compression/zlib_stream_decompress.cpp | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 5d6e453..edc50e1 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -77,7 +77,7 @@ std::vector<uint8_t> Compress::zlibCompressBuffer(const std::vector<uint8_t>& in
 				zlib.stream.next_out = compressed.data() + cursor_out;
 
 				opres = deflate(&zlib.stream, eob ? Z_FINISH : Z_NO_FLUSH);
-				if (opres < 0) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
+				if (opres < 0 && opres != Z_BUF_ERROR) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
@@ -126,7 +126,7 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 				zlib.stream.next_out = decompressed.data() + cursor_out;
 
 				opres = inflate(&zlib.stream, Z_NO_FLUSH);
-				if (opres < Z_OK || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
+				if ((opres < Z_OK && opres != Z_BUF_ERROR) || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index c05e567..2ef3370 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -70,7 +70,6 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next,
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
@@ -120,7 +119,6 @@ std::vector<uint8_t> GzipStreamCompressor::end() {
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 			default: break;
 		}
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index f3ba8c8..7a9eb1b 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -68,7 +68,6 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
-- 
2.43.0


From c87dabb65eab75f5f9b12d3d4631493254eb1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 16/47] fix: gzip stream objects leak when destroyed or
 assigned, resets keep the old window size, unused streams cannot be ended

---
 core/compression/zlib_stream_compress.cpp   | 10 +++++-----
 core/compression/zlib_stream_decompress.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index 2ef3370..11f7100 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,8 @@ GzipStreamCompressor::GzipStreamCompressor(GzipStreamCompressor&& other) {
 }
 
 GzipStreamCompressor& GzipStreamCompressor::operator=(GzipStreamCompressor&& other) {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
@@ -37,7 +37,7 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 
 GzipStreamCompressor::~GzipStreamCompressor() {
 	if (this->m_stream == nullptr) return;
-	(void)inflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
+	(void)deflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
 	delete reinterpret_cast<z_stream*>(this->m_stream);
 }
 
@@ -93,7 +93,7 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next)
 
 std::vector<uint8_t> GzipStreamCompressor::end() {
 
-	if (this->m_stage != Stage::Progress) {
+	if (this->m_stage == Stage::Ended) {
 		throw std::runtime_error("Cannot end a stream that has been already ended");
 	}
 
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 7a9eb1b..8ee3bd7 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,8 @@ GzipStreamDecompressor::GzipStreamDecompressor(GzipStreamDecompressor&& other) {
 }
 
 GzipStreamDecompressor& GzipStreamDecompressor::operator=(GzipStreamDecompressor&& other) noexcept {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
@@ -96,11 +96,11 @@ void GzipStreamDecompressor::reset() noexcept {
 	switch (this->m_stage) {
 
 		case Stage::Done: {
-			inflateReset(reinterpret_cast<z_stream*>(this->m_stream));
+			inflateReset2(reinterpret_cast<z_stream*>(this->m_stream), 32);
 		} break;
 
 		case Stage::Progress: {
-			inflateReset(reinterpret_cast<z_stream*>(this->m_stream));
+			inflateReset2(reinterpret_cast<z_stream*>(this->m_stream), 32);
 		} break;
 
 		default: break;
-- 
2.43.0


From ef357fe4a56fb57b633aa2ecb58410b4207530e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 17/47] fix: VFS moves lose data and totals, times are swapped,
 snapshots ignore totals and file extension

---
 extra/vfs/interface.cpp | 41 +++++++++++++++++++++++++++++++----------
 extra/vfs/vfs.hpp       |  4 ++--
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c1161d5..44a2de7 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -84,8 +84,6 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
 	const auto newPathNormalized = Strings::toLowerCase(newPath);
 
-	this->m_info.totalSize += (newPath.size() - oldPath.size());
-	
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
 	const auto itrOld = this->m_data.find(pathNormalized);
@@ -93,8 +91,21 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		throw std::filesystem::filesystem_error("Virtual file not found", oldPath, std::error_code(2L, std::generic_category()));
 	}
 
-	this->m_data[newPathNormalized] = itrOld->second;
-	this->m_data.erase(itrOld);
+	if (pathNormalized == newPathNormalized) return;
+
+	const auto itrNew = this->m_data.find(newPathNormalized);
+	if (itrNew != this->m_data.end()) {
+		this->m_info.totalSize -= (itrNew->first.size() + itrNew->second.buffer.size());
+		this->m_info.totalFiles--;
+		this->m_data.erase(itrNew);
+	}
+
+	auto node = this->m_data.extract(itrOld);
+	node.key() = newPathNormalized;
+	this->m_data.insert(std::move(node));
+
+	this->m_info.totalSize += newPath.size();
+	this->m_info.totalSize -= oldPath.size();
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
@@ -106,8 +117,8 @@ std::vector<VirtualFileInfo> Interface::listAll() noexcept {
 	for (const auto& entry : this->m_data) {
 		result.push_back({
 			entry.first,
-			entry.second.created,
 			entry.second.modified,
+			entry.second.created,
 			entry.second.buffer.size()
 		});
 	}
@@ -128,8 +139,8 @@ std::optional<VirtualFileInfo> Interface::fileInfo(const std::string& path) noex
 
 	VirtualFileInfo info {
 		itr->first,
-		itr->second.created,
 		itr->second.modified,
+		itr->second.created,
 		itr->second.buffer.size()
 	};
 
@@ -140,10 +151,9 @@ template <std::size_t N>
 bool isSupportedFileExtension(const std::string& filepath, const std::array<std::string, N>& extensions) {
 
 	const auto pathNormalized = Strings::toLowerCase(filepath);
-	const auto pathExtension = std::filesystem::path(pathNormalized).extension();
 
-	for (const auto& item : pathExtension) {
-		if (item == pathExtension) return true;
+	for (const auto& item : extensions) {
+		if (pathNormalized.ends_with(item)) return true;
 	}
 
 	return false;
@@ -171,6 +181,16 @@ void Interface::loadSnapshot(const std::string& path) {
 			};
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
+
+			const auto itr = this->m_data.find(pathNormalized);
+			if (itr == this->m_data.end()) {
+				this->m_info.totalSize += pathNormalized.size();
+				this->m_info.totalFiles++;
+			} else {
+				this->m_info.totalSize -= itr->second.buffer.size();
+			}
+
+			this->m_info.totalSize += vfsentry.buffer.size();
 			this->m_data[pathNormalized] = vfsentry;
 		}
 
@@ -224,6 +244,7 @@ void Interface::saveSnapshot(const std::string& path) {
 	}
 }
 
-const VFSInfo& Interface::stats() const noexcept {
+VFSInfo Interface::stats() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_mtx);
 	return this->m_info;
 }
diff --git a/extra/vfs/vfs.hpp b/extra/vfs/vfs.hpp
index 4ae5d8b..336b2bb 100644
--- a/extra/vfs/vfs.hpp
+++ b/extra/vfs/vfs.hpp
@@ -39,7 +39,7 @@ namespace Lambda {
 		class Interface {
 			private:
 				std::unordered_map <std::string, StoredValue> m_data;
-				std::mutex m_mtx;
+				mutable std::mutex m_mtx;
 				VFSInfo m_info;
 
 			public:
@@ -89,7 +89,7 @@ namespace Lambda {
 				*/
 				void saveSnapshot(const std::string& path);
 
-				const VFSInfo& stats() const noexcept;
+				VFSInfo stats() const noexcept;
 		};
 	};
 
-- 
2.43.0


From 3739a7835021dccde664b1649df21fc189c5925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 18/47] fix: VFS snapshot queue and its worker future are
 shared between threads without synchronisation

---
 extra/vfs/formats.hpp   | 11 ++++++-----
 extra/vfs/interface.cpp |  4 ++--
 extra/vfs/syncqueue.cpp | 44 ++++++++++++++++++++---------------------
 3 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index 75708fa..909d93e 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -7,17 +7,18 @@
 #include <vector>
 #include <array>
 #include <future>
-#include <shared_mutex>
+#include <atomic>
 
 namespace Lambda::VFS::Formats {
 
 	class SyncQueue {
 		private:
 			std::vector<VirtualFile> m_queue;
-			std::mutex m_queue_mtx;
-			std::shared_mutex m_future_mtx;
-			bool m_done = false;
-			std::future<void>* m_watch_future = nullptr;
+			mutable std::mutex m_queue_mtx;
+			std::atomic<bool> m_done = false;
+			std::atomic<std::future<void>*> m_watch_future = nullptr;
+
+			bool waitPeerExit() const;
 
 		public:
 			SyncQueue& operator=(const SyncQueue& other) = delete;
diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 44a2de7..7f2a8c0 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -163,11 +163,11 @@ void Interface::loadSnapshot(const std::string& path) {
 
 	Formats::SyncQueue readerQueue;
 	std::future<void> readerPromise;
-	readerQueue.setPromiseExitWatcher(&readerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
 		readerPromise = std::async(Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerQueue.setPromiseExitWatcher(&readerPromise);
 
 		while (readerQueue.await()) {
 			
@@ -211,11 +211,11 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	Formats::SyncQueue writerQueue;
 	std::future<void> writerPromise;
-	writerQueue.setPromiseExitWatcher(&writerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
 		writerPromise = std::async(Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerQueue.setPromiseExitWatcher(&writerPromise);
 
 		std::lock_guard<std::mutex> lock(this->m_mtx);
 
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index c2dd5af..abec743 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -7,7 +7,7 @@ using namespace Lambda::VFS;
 using namespace Lambda::VFS::Formats;
 
 SyncQueue& SyncQueue::operator=(SyncQueue&& other) noexcept {
-	this->m_done = other.m_done;
+	this->m_done = other.m_done.load();
 	this->m_queue = std::move(other.m_queue);
 	return *this;
 }
@@ -19,48 +19,46 @@ void SyncQueue::push(VirtualFile&& item) {
 
 VirtualFile SyncQueue::next() {
 
+	std::lock_guard lock(this->m_queue_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	std::lock_guard lock(this->m_queue_mtx);
-
 	VirtualFile temp = this->m_queue.front();
 	this->m_queue.erase(this->m_queue.begin());
 
 	return temp;
 }
 
-bool SyncQueue::await() {
-
-	std::shared_lock lock(this->m_future_mtx);
+bool SyncQueue::waitPeerExit() const {
 
-	while (!this->m_done && !this->m_queue.size()) {
+	const auto watched = this->m_watch_future.load();
 
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+	if (watched == nullptr) {
+		std::this_thread::sleep_for(std::chrono::milliseconds(1));
+		return false;
 	}
 
-	return this->m_queue.size();
+	return watched->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 }
 
-bool SyncQueue::awaitEmpty() {
+bool SyncQueue::await() {
+
+	while (!this->m_done && this->empty()) {
+		if (this->waitPeerExit()) break;
+	}
 
-	std::shared_lock lock(this->m_future_mtx);
+	return !this->empty();
+}
 
-	while (!this->m_done && this->m_queue.size()) {
+bool SyncQueue::awaitEmpty() {
 
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+	while (!this->m_done && !this->empty()) {
+		if (this->waitPeerExit()) break;
 	}
 
-	return !this->m_queue.size();
+	return this->empty();
 }
 
 void SyncQueue::close() noexcept {
@@ -72,10 +70,10 @@ bool SyncQueue::done() const noexcept {
 }
 
 bool SyncQueue::empty() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_queue.size() == 0;
 }
 
 void SyncQueue::setPromiseExitWatcher(std::future<void>* watch) noexcept {
-	std::unique_lock lock(this->m_future_mtx);
 	this->m_watch_future = watch;
 }
-- 
2.43.0


From b12c474db9acc72d4f9de4de4d282aa26385ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 19/47] fix: tar archives get wrong checksums and padding,
 write errors and unusable names go unnoticed

---
 extra/vfs/format_tar.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 704e7a6..2a9bedf 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -41,8 +41,8 @@ static const uint16_t tarBlockSize = 512;
 static_assert(sizeof(TarPosixHeader) == tarBlockSize);
 
 size_t getPaddingSize(size_t contentSize) {
-	if (contentSize == 0 || contentSize == tarBlockSize) return 0;
-	return (tarBlockSize * ((contentSize / tarBlockSize) + 1)) - contentSize;
+	const auto lastBlockSize = contentSize % tarBlockSize;
+	return lastBlockSize ? tarBlockSize - lastBlockSize : 0;
 }
 
 enum struct EntryType : char {
@@ -347,23 +347,23 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 
 	strncpy(posixHeader.name, header.name.c_str(), sizeof(posixHeader.name) - 1);
 
-	encodeTarInt(posixHeader.size, sizeof(posixHeader.mtime), header.size);
+	encodeTarInt(posixHeader.size, sizeof(posixHeader.size), header.size);
 	encodeTarInt(posixHeader.mtime, sizeof(posixHeader.mtime), header.modified);
 
 	//	calculate header checksum
-	int64_t checksumSigned = 0;
+	int64_t checksum = 0;
 
 	for (size_t i = 0; i < tarBlockSize; i++) {
 
 		if (i >= 148 && i < 156) {
-			checksumSigned += 32;
+			checksum += 32;
 			continue;
 		}
 
-		checksumSigned += *((int8_t*)(&posixHeader) + i);
+		checksum += *((uint8_t*)(&posixHeader) + i);
 	}
 
-	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksumSigned);
+	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksum);
 
 	const auto headerDataPtr = reinterpret_cast<uint8_t*>(&posixHeader);
 	return std::vector<uint8_t>(headerDataPtr, headerDataPtr + sizeof(posixHeader));
@@ -442,6 +442,10 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
 		auto nextFile = queue.next();
 
+		if (!nextFile.name.size() || nextFile.name.find('\0') != std::string::npos) {
+			throw std::runtime_error("File name can't be stored in a tar archive: \"" + nextFile.name + "\"");
+		}
+
 		if (nextFile.name.size() >= sizeof(TarPosixHeader::name)) {
 
 			TarBasicHeader longlinkHeader {
@@ -467,6 +471,10 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 	}
 
 	writer.endStream();
+
+	if (!outfile.good()) {
+		throw std::filesystem::filesystem_error("Could not write archive", path, std::error_code(5L, std::generic_category()));
+	}
 }
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
-- 
2.43.0


From 8ebef6a83daeed1b4e78100c3ef5bb255459f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 20/47] fix: tar reader misses damage, loses data of
 incompressible archives, prefixed names and skipped records

---
 extra/vfs/format_tar.cpp | 107 ++++++++++++++++++++++++++++++---------
 1 file changed, 82 insertions(+), 25 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 2a9bedf..8598b93 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -6,6 +6,7 @@
 	#include "../../core/compression/compression.hpp"
 #endif
 
+#include <algorithm>
 #include <cassert>
 #include <array>
 #include <cstring>
@@ -58,6 +59,24 @@ struct TarBasicHeader {
 	time_t modified = 0;
 };
 
+/**
+ * Reads in portions so that a damaged size field can't make it allocate more than the file holds
+*/
+std::vector<uint8_t> readPlainChunk(std::ifstream& stream, size_t expectedSize) {
+
+	static const size_t portionSize = 2 * 1024 * 1024;
+	std::vector<uint8_t> result;
+
+	while (result.size() < expectedSize && stream.good()) {
+		const auto cursor = result.size();
+		result.resize(cursor + std::min(portionSize, expectedSize - cursor));
+		stream.read(reinterpret_cast<char*>(result.data()) + cursor, result.size() - cursor);
+		result.resize(cursor + stream.gcount());
+	}
+
+	return result;
+}
+
 #ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
 
 enum struct TarCompression {
@@ -72,7 +91,7 @@ class InflatableReader {
 
 		Compress::GzipStreamDecompressor* m_gz_strm = nullptr;
 
-		static const size_t bufferSize = 2 * 1024 * 1024;
+		static constexpr size_t bufferSize = 2 * 1024 * 1024;
 
 		/**
 		 * Read end decompress enough data to contain expectedSize
@@ -83,16 +102,15 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			if (this->m_buff.size() >= expectedSize || this->m_readstream.eof() || this->m_gz_strm->isDone()) {
-				return;
-			}
+			while (this->m_buff.size() < expectedSize && this->m_readstream.good() && !this->m_gz_strm->isDone()) {
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-			tempBuff.resize(this->m_readstream.gcount());
+				std::vector<uint8_t> tempBuff(std::min(expectedSize, bufferSize));
+				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+				tempBuff.resize(this->m_readstream.gcount());
 
-			auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
-			this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+				auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
+				this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+			}
 		}
 
 	public:
@@ -129,11 +147,7 @@ class InflatableReader {
 						return {};
 					}
 
-					std::vector<uint8_t> tempBuff(expectedSize);
-					this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-
-					const auto bytesRead = this->m_readstream.gcount();
-					return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+					return readPlainChunk(this->m_readstream, expectedSize);
 				};
 			}
 		}
@@ -150,7 +164,7 @@ class InflatableReader {
 				case TarCompression::Gzip: {
 
 					this->m_decompressToContain(skipSize);
-					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipSize);
+					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + std::min(skipSize, this->m_buff.size()));
 
 				} break;
 				
@@ -163,6 +177,22 @@ class InflatableReader {
 			}
 		}
 
+		/**
+		 * Runs through the rest of a compressed stream to have it's checksum verified
+		*/
+		void finish() {
+
+			if (this->m_compression != TarCompression::Gzip) return;
+
+			while (!this->m_gz_strm->isDone()) {
+				this->m_buff.clear();
+				this->m_decompressToContain(bufferSize);
+				if (!this->m_buff.size() && !this->m_gz_strm->isDone()) {
+					throw std::runtime_error("Compressed archive is incomplete");
+				}
+			}
+		}
+
 		bool isEof() const noexcept {
 			const auto isCompressed = this->m_compression == TarCompression::None;
 			const auto isFsEof = this->m_readstream.eof();
@@ -264,11 +294,7 @@ class PlainFSReader {
 				return {};
 			}
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-
-			const auto bytesRead = this->m_readstream.gcount();
-			return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+			return readPlainChunk(this->m_readstream, expectedSize);
 		}
 
 		std::string readTextChunk(size_t expectedSize) {
@@ -281,6 +307,8 @@ class PlainFSReader {
 			this->m_readstream.seekg(skipSize, std::ios::cur);
 		}
 
+		void finish() {}
+
 		bool isEof() const noexcept {
 			return this->m_readstream.eof();
 		}
@@ -398,7 +426,9 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	}
 
 	const auto parseTarInt = [](const char* field, size_t fieldsize) {
-		return std::stoll(std::string(field, fieldsize), nullptr, 8);
+		const auto value = std::stoll(std::string(field, fieldsize), nullptr, 8);
+		if (value < 0) throw std::runtime_error("Tar record has a negative number in it's header");
+		return value;
 	};
 
 	auto originalChecksum = parseTarInt(posixHeader->chksum, sizeof(posixHeader->chksum));
@@ -412,7 +442,11 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	const size_t nameFieldLength = nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);
 
 	header.name = std::string(posixHeader->name, nameFieldLength);
-	header.typeflag = static_cast<EntryType>(posixHeader->typeflag);
+	header.typeflag = posixHeader->typeflag ? static_cast<EntryType>(posixHeader->typeflag) : EntryType::Normal;
+
+	if (posixHeader->prefix[0]) {
+		header.name = std::string(posixHeader->prefix, strnlen(posixHeader->prefix, sizeof(posixHeader->prefix))) + '/' + header.name;
+	}
 
 	//	decode file size
 	header.size = parseTarInt(posixHeader->size, sizeof(posixHeader->size));
@@ -494,10 +528,23 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 	std::optional<std::string> nextLongLink;
 
-	while (!reader.isEof()) {
+	const auto isEmptyBlock = [](const std::vector<uint8_t>& block) {
+		return std::all_of(block.begin(), block.end(), [](uint8_t item) { return item == 0; });
+	};
+
+	while (true) {
 
 		const auto rawHeader = reader.readChunk(sizeof(TarPosixHeader));
-		if (rawHeader.size() < sizeof(TarPosixHeader) || !rawHeader[0]) break;
+		if (rawHeader.size() < sizeof(TarPosixHeader)) {
+			throw std::runtime_error("Tar archive is incomplete");
+		}
+
+		if (!rawHeader[0]) {
+			if (!isEmptyBlock(rawHeader) || !isEmptyBlock(reader.readChunk(sizeof(TarPosixHeader)))) {
+				throw std::runtime_error("Tar archive is damaged: garbage in place of a record");
+			}
+			break;
+		}
 
 		const auto nextHeader = parseHeader(rawHeader);
 
@@ -548,9 +595,19 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 			} break;
 			
-			default: break;
+			default: {
+
+				//	not a regular file: skip it's contents if there are any
+				const size_t paddedSize = nextHeader.size + getPaddingSize(nextHeader.size);
+				if (paddedSize && nextHeader.typeflag != EntryType::Directory) {
+					reader.skipNext(paddedSize);
+				}
+
+			} break;
 		}
 	}
 
+	reader.finish();
+
 	queue.close();
 }
-- 
2.43.0


From 9a66bf8a7bbf417d06918f87fe3b19a3ca88f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 21/47] fix: tar header version write runs past its two byte
 field

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 8598b93..525df72 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -366,7 +366,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	memset(&posixHeader, 0, sizeof(posixHeader));
 
 	strcpy(posixHeader.magic, "ustar");
-	strcpy(posixHeader.version, "00");
+	memcpy(posixHeader.version, "00", sizeof(posixHeader.version));
 	posixHeader.typeflag = static_cast<std::underlying_type_t<EntryType>>(header.typeflag);
 
 	strncpy(posixHeader.mode, "0100777", sizeof(posixHeader.mode));
-- 
2.43.0


From 8d87c4cf8e6deb4e1ee70975e49c400ffe2db4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 22/47] fix: key-value storage reads size and key presence
 without it's lock

---
 extra/kvstorage/interface.cpp | 2 ++
 extra/kvstorage/kvstorage.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 9f4ecd4..76dda86 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -30,6 +30,7 @@ StorageInterface::~StorageInterface() {
 }
 
 bool StorageInterface::hasItem(const std::string& key) const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.contains(key);
 }
 
@@ -75,5 +76,6 @@ void StorageInterface::clear() {
 }
 
 size_t StorageInterface::size() const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.size();
 }
diff --git a/extra/kvstorage/kvstorage.hpp b/extra/kvstorage/kvstorage.hpp
index 56e18b7..b971b76 100644
--- a/extra/kvstorage/kvstorage.hpp
+++ b/extra/kvstorage/kvstorage.hpp
@@ -27,7 +27,7 @@ namespace Lambda::Storage {
 		class StorageInterface {
 			protected:
 				Container data;
-				std::mutex mtlock;
+				mutable std::mutex mtlock;
 				Driver* driver = nullptr;
 
 			public:
-- 
2.43.0


From 86b2755bf961c977abc6adb44c2a5734e783b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 23/47] fix: key-value storage loses data when killed, ignores
 failed writes and cuts long keys

---
 extra/kvstorage/driver.cpp    | 152 ++++++++++++++++++++++++----------
 extra/kvstorage/driver.hpp    |  12 ++-
 extra/kvstorage/interface.cpp |   7 +-
 3 files changed, 122 insertions(+), 49 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index d157c41..305d23a 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -15,13 +15,17 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 
 	if (std::filesystem::exists(this->m_filename)) {
 
-		this->m_stream = std::fstream(this->m_filename, std::ios::in | std::ios::binary);
-		if (!this->m_stream.is_open()) {
+		//	follow links, so that the file itself would be replaced and not a link to it
+		this->m_filename = std::filesystem::canonical(this->m_filename).string();
+		const auto fileSize = std::filesystem::file_size(this->m_filename);
+
+		auto infile = std::ifstream(this->m_filename, std::ios::binary);
+		if (!infile.is_open()) {
 			throw std::runtime_error("Could not open \"" + this->m_filename + "\" for read");
 		}
 
-		DBBasicHeader dbHeader;
-		this->m_stream.read((char*)&dbHeader, sizeof(dbHeader));
+		DBBasicHeader dbHeader {};
+		infile.read((char*)&dbHeader, sizeof(dbHeader));
 		dbHeader.version = Bits::storenormx(dbHeader.version);
 
 		//	check if a file is even our db
@@ -29,7 +33,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("File \"" + this->m_filename + "\" is not recognized as a db file");
 		}
 
-		if (this->m_stream.gcount() != sizeof(dbHeader)) {
+		if (infile.gcount() != sizeof(dbHeader)) {
 			throw std::runtime_error("Corrupt db file: cound not read db version");
 		}
 
@@ -38,40 +42,44 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("Unsupported db version");
 		}
 
-		this->m_init_data = new Container();
+		this->m_init_data.emplace();
 
-		while (this->m_stream.is_open() && !this->m_stream.eof()) {
+		//	the last record can be incomplete if the process has died while writing it,
+		//	in that case it's operation had never been completed
+		for (uintmax_t cursor = sizeof(dbHeader); fileSize - cursor >= sizeof(RecordHeader);) {
 
 			RecordHeader recordHeader;
-			this->m_stream.read((char*)&recordHeader, sizeof(recordHeader));
-			auto lastRead = this->m_stream.gcount();
-			
-			if (lastRead != sizeof(recordHeader)) {
-				if (!lastRead) break;
-				throw std::runtime_error("Corrupt db file: incomplete record header");
+			infile.read((char*)&recordHeader, sizeof(recordHeader));
+			if (infile.gcount() != sizeof(recordHeader)) {
+				throw std::runtime_error("Could not read db file: \"" + this->m_filename + "\"");
 			}
 
 			auto opationType = static_cast<TransactionType>(Bits::storenormx(recordHeader.type));
 			recordHeader.keySize = Bits::storenormx(recordHeader.keySize);
 			recordHeader.valueSize = Bits::storenormx(recordHeader.valueSize);
 
+			const auto recordDataSize = static_cast<uintmax_t>(recordHeader.keySize) + recordHeader.valueSize;
+			const bool isIncomplete = recordDataSize > fileSize - cursor - sizeof(recordHeader);
+
 			switch (opationType) {
 
 				case TransactionType::Put: {
 
+					if (isIncomplete) break;
+
 					std::string putKey;
 					putKey.resize(recordHeader.keySize);
 
-					this->m_stream.read(putKey.data(), putKey.size());
-					if (this->m_stream.gcount() != recordHeader.keySize) {
+					infile.read(putKey.data(), putKey.size());
+					if (infile.gcount() != recordHeader.keySize) {
 						throw std::runtime_error("Corrupt db file: incomplete record data");
 					}
 
 					std::string putValue;
 					putValue.resize(recordHeader.valueSize);
 
-					this->m_stream.read(putValue.data(), putValue.size());
-					if (this->m_stream.gcount() != recordHeader.valueSize) {
+					infile.read(putValue.data(), putValue.size());
+					if (infile.gcount() != recordHeader.valueSize) {
 						throw std::runtime_error("Corrupt db file: incomplete record data");
 					}
 					
@@ -85,11 +93,13 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 						throw std::runtime_error("Corrupt db file: Remove transaction cannot carry a record value");
 					}
 
+					if (isIncomplete) break;
+
 					std::string removeKey;
 					removeKey.resize(recordHeader.keySize);
 
-					this->m_stream.read(removeKey.data(), removeKey.size());
-					if (this->m_stream.gcount() != recordHeader.keySize) {
+					infile.read(removeKey.data(), removeKey.size());
+					if (infile.gcount() != recordHeader.keySize) {
 						throw std::runtime_error("Corrupt db file: incomplete record data");
 					}
 
@@ -116,65 +126,117 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 				default:
 					throw std::runtime_error("Corrupt db file: unknown TransactionType (" + std::to_string(recordHeader.type) + ")");
 			}
+
+			if (isIncomplete) break;
+			cursor += sizeof(recordHeader) + recordDataSize;
 		}
 	}
 
+	this->m_filename = std::filesystem::absolute(this->m_filename).string();
+
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
 	if (!std::filesystem::exists(dbfileParentDir)) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::binary);
+	//	write a new file aside and put it in place only when it's complete
+	const auto tempFilename = this->m_filename + ".tmp";
+
+	this->m_stream = std::ofstream(tempFilename, std::ios::binary);
 	if (!this->m_stream.is_open()) {
-		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+		throw std::runtime_error("Failed to open db file for write: " + tempFilename);
 	}
 
 	DBBasicHeader dbHeader;
 	memcpy(dbHeader.magic, this->magicstring, sizeof(dbHeader.magic));
-	dbHeader.version = Bits::storenormx(this->version);
+	dbHeader.version = Bits::storenormx(static_cast<uint16_t>(this->version));
 
 	this->m_stream.write((const char*)&dbHeader, sizeof(dbHeader));
 
-	if (this->m_init_data != nullptr) {
-		for (const auto& entry : *this->m_init_data) {
-			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
+	if (this->m_init_data.has_value()) {
+		for (const auto& entry : this->m_init_data.value()) {
+			const auto record = serializeRecord({ TransactionType::Put, &entry.first, &entry.second });
+			this->m_stream.write(record.data(), record.size());
 		}
 	}
+
+	this->m_stream.close();
+	if (!this->m_stream.good()) {
+		std::error_code errcode;
+		std::filesystem::remove(tempFilename, errcode);
+		throw std::runtime_error("Failed to write db file: " + tempFilename);
+	}
+
+	std::filesystem::rename(tempFilename, this->m_filename);
+
+	this->openLog();
 }
 
 Driver::~Driver() {
-
-	this->m_stream.flush();
 	this->m_stream.close();
-	
-	if (this->m_init_data) {
-		delete this->m_init_data;
+}
+
+void Driver::openLog() {
+
+	this->m_stream = std::ofstream(this->m_filename, std::ios::app | std::ios::binary);
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
 	}
+
+	this->m_log_size = std::filesystem::file_size(this->m_filename);
 }
 
-std::optional<Container> Driver::sync() {
+void Driver::writeLog(const std::string& data) {
 
-	if (this->m_init_data == nullptr) {
-		return std::nullopt;
+	//	a previous attempt to recover from a failed write has failed too
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Db file is no longer writable: " + this->m_filename);
 	}
 
-	auto temp = std::move(*this->m_init_data);
+	this->m_stream.write(data.data(), data.size());
+	this->m_stream.flush();
+
+	if (!this->m_stream.good()) {
+
+		//	cut off everything what could have been written
+		this->m_stream.close();
+		std::filesystem::resize_file(this->m_filename, this->m_log_size);
+		this->openLog();
+
+		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	}
+
+	this->m_log_size += data.size();
+}
+
+std::optional<Container> Driver::sync() {
 
-	delete this->m_init_data;
-	this->m_init_data = nullptr;
+	auto temp = std::move(this->m_init_data);
+	this->m_init_data.reset();
 
 	return temp;
 }
 
-void Driver::handleTransaction(const Transaction& tractx) {
+std::string Driver::serializeRecord(const Transaction& tractx) {
+
+	const size_t keySize = tractx.key ? tractx.key->size() : 0;
+	const size_t valueSize = tractx.value ? tractx.value->size() : 0;
+
+	if (keySize > UINT16_MAX) {
+		throw std::runtime_error("key is too long to be stored (" + std::to_string(keySize) + " bytes)");
+	}
+
+	if (valueSize > UINT32_MAX) {
+		throw std::runtime_error("value is too long to be stored (" + std::to_string(valueSize) + " bytes)");
+	}
 
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
-		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
-		Bits::storenormx(static_cast<uint32_t>(tractx.value ? tractx.value->size() : 0))
+		Bits::storenormx(static_cast<uint16_t>(keySize)),
+		Bits::storenormx(static_cast<uint32_t>(valueSize))
 	};
 
-	this->m_stream.write((const char*)&recordHeader, sizeof(recordHeader));
+	std::string record((const char*)&recordHeader, sizeof(recordHeader));
 
 	if (tractx.type != TransactionType::Clear) {
 
@@ -182,7 +244,7 @@ void Driver::handleTransaction(const Transaction& tractx) {
 			throw std::runtime_error("a transaction should specify a key to operate on");
 		}
 
-		this->m_stream.write(tractx.key->data(), tractx.key->size());
+		record.append(*tractx.key);
 	}
 
 	if (tractx.type == TransactionType::Put) {
@@ -191,8 +253,12 @@ void Driver::handleTransaction(const Transaction& tractx) {
 			throw std::runtime_error("a write transaction should provida a value");
 		}
 
-		this->m_stream.write(tractx.value->data(), tractx.value->size());
+		record.append(*tractx.value);
 	}
 
-	this->m_stream.flush();
+	return record;
+}
+
+void Driver::handleTransaction(const Transaction& tractx) {
+	this->writeLog(serializeRecord(tractx));
 }
diff --git a/extra/kvstorage/driver.hpp b/extra/kvstorage/driver.hpp
index a586969..9ca86db 100644
--- a/extra/kvstorage/driver.hpp
+++ b/extra/kvstorage/driver.hpp
@@ -4,6 +4,7 @@
 
 #include "./kvstorage.hpp"
 
+#include <cstdint>
 #include <fstream>
 #include <optional>
 
@@ -13,9 +14,14 @@ namespace Lambda::Storage::KVStorage {
 		private:
 			constexpr static char const magicstring[] = "mlkvdb";
 
-			const std::string m_filename;
-			std::fstream m_stream;
-			Container* m_init_data = nullptr;
+			std::string m_filename;
+			std::ofstream m_stream;
+			uintmax_t m_log_size = 0;
+			std::optional<Container> m_init_data;
+
+			void openLog();
+			void writeLog(const std::string& data);
+			static std::string serializeRecord(const Transaction& tractx);
 
 			struct DBBasicHeader {
 				char magic[sizeof(magicstring) - 1];
diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 76dda86..61322c5 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -57,22 +57,23 @@ void StorageInterface::removeItem(const std::string& key) {
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
 	if (!this->data.contains(key)) return;
-	this->data.erase(key);
 
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Remove, &key });
 	}
+
+	this->data.erase(key);
 }
 
 void StorageInterface::clear() {
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	this->data.clear();
-
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Clear });
 	}
+
+	this->data.clear();
 }
 
 size_t StorageInterface::size() const noexcept {
-- 
2.43.0


From 84932c0afc3943b9ce7ae4c534c7ede30528cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 24/47] fix: static server fails on over-long paths, confuses
 dot segments with names, serves unreadable files as empty

---
 extra/staticserver/staticserver.cpp | 67 +++++++++++++++++------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 34deef5..4b71c60 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -2,19 +2,21 @@
 #include "../../core/html/html.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
+#include <algorithm>
 #include <filesystem>
 #include <functional>
 #include <fstream>
 #include <vector>
+#include <optional>
 #include <cstdint>
 
 using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTML;
 
-std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
+std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
-	if (!readablefile.is_open()) return {};
+	if (!readablefile.is_open()) return std::nullopt;
 	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
 }
 
@@ -25,32 +27,34 @@ std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
 		urlpath.replace(segmentPos, 1, "/");
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("../")) != std::string::npos)	{
+	std::vector<std::string> segments;
+	bool isDirectory = false;
 
-		size_t segmentPrevStart = 0;
-		size_t searchStart = segmentPos > 2 ? segmentPos - 2 : 0;
-		for (size_t i = searchStart; i > 0; i--) {
-			if (urlpath[i] == '/') {
-				segmentPrevStart = i;
-				break;
-			}
-		}
+	for (size_t cursor = 0; cursor <= urlpath.size();) {
+
+		const auto segmentEnd = std::min(urlpath.find('/', cursor), urlpath.size());
+		const auto segment = urlpath.substr(cursor, segmentEnd - cursor);
+		cursor = segmentEnd + 1;
 
-		urlpath.replace(segmentPrevStart, (segmentPos + 3) - segmentPrevStart, "/");
+		isDirectory = !segment.size() || segment == "." || segment == "..";
+		
+		if (!isDirectory) {
+			segments.push_back(segment);
+		} else if (segment == ".." && segments.size()) {
+			segments.pop_back();
+		}
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("./")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	std::string result;
+	for (const auto& segment : segments) {
+		result += '/' + segment;
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("//")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 2, "/");
+	if (isDirectory) {
+		result.push_back('/');
 	}
 
-	return urlpath;
+	return result;
 }
 
 StaticServer::StaticServer(const std::string& rootDir) {
@@ -72,10 +76,16 @@ StaticServer::StaticServer(const std::string& rootDir) {
 
 std::optional<std::string> StaticServer::resolvePath(const std::string& pathname) const noexcept {
 
+	//	the file system would cut such a path short
+	if (pathname.find('\0') != std::string::npos) {
+		return std::nullopt;
+	}
+
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-		return std::filesystem::exists(fspath) && std::filesystem::is_regular_file(fspath);
+		std::error_code errcode;
+		return std::filesystem::is_regular_file(fspath, errcode);
 	};
 
 	if (checkAvailability(basePath)) {
@@ -86,7 +96,10 @@ std::optional<std::string> StaticServer::resolvePath(const std::string& pathname
 	auto lastDotPos = basePath.find_last_of('.');
 	auto lastSlashPos = basePath.find_last_of('/');
 	if (lastDotPos != std::string::npos && (lastDotPos > lastSlashPos)) {
-		return std::nullopt;
+		std::error_code errcode;
+		if (!std::filesystem::is_directory(basePath, errcode)) {
+			return std::nullopt;
+		}
 	}
 
 	//	ensure the path ends with a slash
@@ -118,8 +131,10 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto normalizedPathname = flattenPathName(pathname);
 	auto resolvedFile = this->resolvePath(normalizedPathname);
 
+	auto fileContent = resolvedFile.has_value() ? readBinaryFileSync(resolvedFile.value()) : std::nullopt;
+
 	//	return 404
-	if (!resolvedFile.has_value()) {
+	if (!fileContent.has_value()) {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
@@ -128,12 +143,10 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	}
 
 	auto& resolvedFilePath = resolvedFile.value();
-	auto extension = std::filesystem::relative(resolvedFilePath).extension();
+	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
-	auto fileContent = readBinaryFileSync(resolvedFilePath);
-
 	return Response(200, {
 		{ "content-type", mimetype }
-	}, fileContent);
+	}, fileContent.value());
 }
-- 
2.43.0


From 5048208f13a5b5297267fae44f0fb569299ae43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 25/47] fix: tcp connections lose partial writes, get the
 process killed by SIGPIPE, ignore sub-second timeouts and leak or mix up
 sockets

---
 core/network/sysnetw.hpp        |  3 ++
 core/network/tcp/connection.cpp | 87 +++++++++++++++++++++++---------
 core/network/tcp/connection.hpp |  3 +-
 core/network/tcp/listener.cpp   | 89 ++++++++++++++++++++++++++-------
 core/network/tcp/listener.hpp   |  5 +-
 5 files changed, 144 insertions(+), 43 deletions(-)

diff --git a/core/network/sysnetw.hpp b/core/network/sysnetw.hpp
index 00e1a83..1690b60 100644
--- a/core/network/sysnetw.hpp
+++ b/core/network/sysnetw.hpp
@@ -18,6 +18,9 @@
 
 		#define GetOSErrorCode() (static_cast<int32_t>(GetLastError()))
 
+		//	there are no signals to suppress
+		#define MSG_NOSIGNAL (0)
+
 		inline bool wsaWakeUp() {
 
 			static bool wsaInitCalled = false;
diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 16e45de..6f745eb 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -28,34 +28,52 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+
+	if (this == &other) return *this;
+
+	//	close the socket that is about to be replaced
+	this->end();
+
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
+	this->flags = other.flags;
 	return *this;
 }
 
 Connection::Connection(Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
+	this->flags = other.flags;
 }
 
 Connection::~Connection() {
-	if (this->hSocket == INVALID_SOCKET) return;
-	shutdown(this->hSocket, SD_BOTH);
-	closesocket(this->hSocket);
+	this->end();
 }
 
 void Connection::end() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
 	//	swapping handle to a temp variable so that
 	//	no race condition can occur further down the chain
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const SockHandle tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
+
+	#ifndef _WIN32
+
+		//	shutdown has just woken up all the blocked calls, so wait until they leave.
+		//	otherwise they could end up using the same handle number, but assigned to some other socket
+		std::scoped_lock lock(this->m_read_mtx, this->m_write_mtx);
+
+		//	closing a socket that has unread data resets the connection,
+		//	and everything that is still being sent would be lost
+		char discard[DefaultChunkSize];
+		for (size_t i = 0; i < 1024; i++) {
+			if (recv(tempHandle, discard, sizeof(discard), MSG_DONTWAIT) <= 0) break;
+		}
+
+	#endif
+
 	closesocket(tempHandle);
 }
 
@@ -69,15 +87,26 @@ bool Connection::isOpen() const noexcept {
 
 void Connection::write(const std::vector<uint8_t>& data) {
 
-	if (this->hSocket == INVALID_SOCKET)
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
 		throw Lambda::Error("Cann't write to a closed connection");
 
-	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+	//	a single call may not be able to send all the data at once
+	size_t totalSent = 0;
+
+	while (totalSent < data.size()) {
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), 0);
+		const auto bytesSent = send(handle, (const char*)data.data() + totalSent, data.size() - totalSent, MSG_NOSIGNAL);
 
-	if (static_cast<size_t>(bytesSent) != data.size())
-		throw NetworkError("Network error while writing data");
+		if (bytesSent < 0) {
+			if (GetOSErrorCode() == EINTR) continue;
+			throw NetworkError("Network error while writing data");
+		}
+
+		totalSent += bytesSent;
+	}
 }
 
 std::vector<uint8_t> Connection::read() {
@@ -86,14 +115,26 @@ std::vector<uint8_t> Connection::read() {
 
 std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
-	if (this->hSocket == INVALID_SOCKET)
+	auto chunk = std::vector<uint8_t>(expectedSize);
+
+	std::unique_lock<std::mutex> lock(this->m_read_mtx);
+
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
 		throw Lambda::Error("Can't read from a closed connection");
 
-	std::lock_guard<std::mutex> lock(this->m_read_mtx);
+	//	reading nothing would look the same as a disconnect
+	if (!expectedSize) return {};
 
-	auto chunk = std::vector<uint8_t>(expectedSize);
+	ssize_t bytesReceived;
+	do {
+		bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	} while (bytesReceived < 0 && GetOSErrorCode() == EINTR);
+
+	const auto osError = bytesReceived < 0 ? GetOSErrorCode() : 0;
 
-	const auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	//	end() needs this lock to close the socket
+	lock.unlock();
 
 	if (bytesReceived == 0) {
 
@@ -102,8 +143,6 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	} else if (bytesReceived < 0) {
 
-		const auto osError = GetOSErrorCode();
-
 		if (blockingEndedCodes.contains(osError)) {
 
 			if (this->flags.closeOnTimeout) {
@@ -121,7 +160,7 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 				return {};
 			}
 
-			throw NetworkError("Connection abruptly closed by the client");
+			throw NetworkError("Connection abruptly closed by the client", osError);
 		}
 
 		throw NetworkError("Network error while reading data", osError);
@@ -140,7 +179,7 @@ void Connection::setTimeouts(uint32_t valueMs, SetTimeoutsDirection direction) {
 	#else
 		timeval timeoutValue;
 		timeoutValue.tv_sec = valueMs / 1000;
-		timeoutValue.tv_usec = 0;
+		timeoutValue.tv_usec = (valueMs % 1000) * 1000;
 	#endif
 
 	const auto timeouValuePtr = reinterpret_cast<const char*>(&timeoutValue);
diff --git a/core/network/tcp/connection.hpp b/core/network/tcp/connection.hpp
index 5abac63..6029d4e 100644
--- a/core/network/tcp/connection.hpp
+++ b/core/network/tcp/connection.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <string>
 #include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -24,7 +25,7 @@ namespace Lambda::Network::TCP {
 
 	class Connection {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ConnectionInfo m_info;
 			std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 03cd221..17428fe 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -2,9 +2,35 @@
 #include "./connection.hpp"
 #include "../sysnetw.hpp"
 
+#include <set>
+#include <chrono>
+#include <thread>
+
 using namespace Lambda::Network;
 using namespace Lambda::Network::TCP;
 
+/**
+ * Errors that are only related to a single incoming connection
+*/
+static const std::set<int> transientErrorCodes = {
+	#ifdef _WIN32
+		WSAEINTR, WSAECONNRESET
+	#else
+		EINTR, EAGAIN, ECONNABORTED, EPROTO, EPERM, ENETDOWN, ENETUNREACH, EHOSTDOWN, EHOSTUNREACH, ENOPROTOOPT, EOPNOTSUPP
+	#endif
+};
+
+/**
+ * Errors that go away when some resources are released
+*/
+static const std::set<int> exhaustedErrorCodes = {
+	#ifdef _WIN32
+		WSAEMFILE, WSAENOBUFS
+	#else
+		EMFILE, ENFILE, ENOBUFS, ENOMEM
+	#endif
+};
+
 ListenSocket::ListenSocket(const ListenConfig& init) : config(init) {
 
 	//	special threatment for windows and it's fucking WSA
@@ -48,21 +74,23 @@ ListenSocket::ListenSocket(const ListenConfig& init) : config(init) {
 }
 
 ListenSocket::~ListenSocket() {
-	if (this->hSocket == INVALID_SOCKET) return;
-	shutdown(this->hSocket, SD_BOTH);
-	closesocket(this->hSocket);
+	this->stop();
 }
 
 ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 }
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+
+	if (this == &other) return *this;
+
+	//	close the socket that is about to be replaced
+	this->stop();
+
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
 
@@ -75,13 +103,35 @@ std::optional<Connection> ListenSocket::acceptConnection() {
 
 	//	accept network connection
 	sockaddr_in peerAddr;
-	socklen_t clientAddrLen = sizeof(peerAddr);
-	auto nextSocket = accept(this->hSocket, (sockaddr*)&peerAddr, &clientAddrLen);
+	SockHandle nextSocket = INVALID_SOCKET;
+
+	while (nextSocket == INVALID_SOCKET) {
+
+		int32_t osError = 0;
 
-	//	verify that we have a valid socket
-	if (nextSocket == INVALID_SOCKET) {
-		if (this->hSocket == INVALID_SOCKET) return std::nullopt;
-		throw NetworkError("Socket accept() failed");
+		{
+			std::lock_guard<std::mutex> lock(this->m_accept_mtx);
+
+			const SockHandle handle = this->hSocket;
+			if (handle == INVALID_SOCKET) return std::nullopt;
+
+			socklen_t clientAddrLen = sizeof(peerAddr);
+			nextSocket = accept(handle, (sockaddr*)&peerAddr, &clientAddrLen);
+			if (nextSocket == INVALID_SOCKET) osError = GetOSErrorCode();
+		}
+
+		//	verify that we have a valid socket
+		if (nextSocket == INVALID_SOCKET) {
+
+			if (this->hSocket == INVALID_SOCKET) return std::nullopt;
+
+			if (exhaustedErrorCodes.contains(osError)) {
+				//	let existing connections finish and free up some resources
+				std::this_thread::sleep_for(std::chrono::milliseconds(10));
+			} else if (!transientErrorCodes.contains(osError)) {
+				throw NetworkError("Socket accept() failed", osError);
+			}
+		}
 	}
 
 	//	try getting peer host name
@@ -121,11 +171,16 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const SockHandle tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
+
+	#ifndef _WIN32
+		//	shutdown has just woken up a blocked accept call, so wait until it leaves.
+		//	otherwise it could end up using the same handle number, but assigned to some other socket
+		std::lock_guard<std::mutex> lock(this->m_accept_mtx);
+	#endif
+
 	closesocket(tempHandle);
 }
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index 361881a..a0cdc8f 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -5,6 +5,8 @@
 #include "./connection.hpp"
 
 #include <optional>
+#include <atomic>
+#include <mutex>
 
 namespace Lambda::Network::TCP {
 
@@ -16,7 +18,8 @@ namespace Lambda::Network::TCP {
 
 	class ListenSocket {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
+			std::mutex m_accept_mtx;
 			ListenConfig config;
 
 		public:
-- 
2.43.0


From 733bd3e6a0e807e4dac58a1dc142b983174f0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 26/47] fix: server races on shutdown, exceeds connection
 limit, holds sockets of finished connections and stops accepting on resource
 errors

---
 core/server/instance.cpp | 66 +++++++++++++++++++++++++++++-----------
 core/server/server.hpp   |  5 ++-
 core/server/worker.hpp   |  5 +--
 3 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 8f65942..43eda44 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -4,6 +4,7 @@
 #include "../http/transport.hpp"
 
 #include <cstdio>
+#include <system_error>
 #include <thread>
 
 using namespace Lambda;
@@ -33,6 +34,16 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 	this->serviceWorker = std::async([&]() {
 
+		const auto acceptNext = [&]() -> std::optional<Network::TCP::Connection> {
+			try {
+				return this->listener.acceptConnection();
+			} catch (const Network::NetworkError&) {
+				//	it's fine when the socket gets closed by a shutdown
+				if (this->m_terminated) return std::nullopt;
+				throw;
+			}
+		};
+
 		if (this->config.service.useThreadList) {
 
 			const auto workerJoinFilter = [&](WorkerContext& node) -> bool {
@@ -53,28 +64,41 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 			while (!this->m_terminated && this->listener.active()) {
 
-				auto nextConn = this->listener.acceptConnection();
+				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) break;
 
-				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
-					nextConn.value().end();
+				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
+
+				//	no one is going to signal this worker to exit if it's created now
+				if (this->m_terminated) break;
+
+				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
 					this->m_connections.remove_if(workerJoinFilter);
+				}
+
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
+					nextConn.value().end();
 					continue;
 				}
 
-				this->m_connections.push_front({
-					std::move(nextConn.value())
-				});
+				this->m_connections.emplace_front(std::move(nextConn.value()));
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
-				nextWorker.worker = std::thread([&](WorkerContext& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-					worker.finished = true;
-				}, std::ref(nextWorker));
 
-				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
-					this->m_connections.remove_if(workerJoinFilter);
+				try {
+
+					nextWorker.worker = std::thread([&](WorkerContext& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+						//	don't keep the socket until this node is removed from the list
+						worker.conn.end();
+						worker.finished = true;
+					}, std::ref(nextWorker));
+
+				} catch (const std::system_error& error) {
+					this->m_connections.pop_front();
+					this->m_connections_count--;
+					syncout.error("[Service] Connection dropped: " + std::string(error.what()));
 				}
 			}
 
@@ -82,14 +106,19 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 			while (!this->m_terminated && this->listener.active()) {
 
-				auto nextConn = this->listener.acceptConnection();
+				auto nextConn = acceptNext();
 				if (!nextConn.has_value()) break;
 
-				std::thread([&](WorkerContext&& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-				}, WorkerContext {
-					std::move(nextConn.value())
-				}).detach();
+				try {
+
+					std::thread([&](Network::TCP::Connection&& conn) {
+						WorkerContext worker { std::move(conn) };
+						connectionWorker(worker, this->config, this->httpHandler);
+					}, std::move(nextConn.value())).detach();
+
+				} catch (const std::system_error& error) {
+					syncout.error("[Service] Connection dropped: " + std::string(error.what()));
+				}
 			}
 		}
 	});
@@ -114,6 +143,7 @@ void LambdaInstance::terminate() {
 
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
+		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 		for (auto& worker : this->m_connections) {
 			worker.shutdownFlag = true;
 		}
diff --git a/core/server/server.hpp b/core/server/server.hpp
index 4bd0509..0b65247 100644
--- a/core/server/server.hpp
+++ b/core/server/server.hpp
@@ -7,7 +7,9 @@
 
 #include "../network/tcp/listener.hpp"
 
+#include <atomic>
 #include <forward_list>
+#include <mutex>
 
 namespace Lambda {
 
@@ -21,10 +23,11 @@ namespace Lambda {
 			RequestCallback httpHandler;
 
 			std::future<void> serviceWorker;
-			bool m_terminated = false;
+			std::atomic<bool> m_terminated = false;
 
 			std::forward_list<WorkerContext> m_connections;
 			size_t m_connections_count = 0;
+			std::mutex m_connections_mtx;
 
 			/**
 			 * Internal call that signals all workers to exit
diff --git a/core/server/worker.hpp b/core/server/worker.hpp
index 1c8c86b..98dc192 100644
--- a/core/server/worker.hpp
+++ b/core/server/worker.hpp
@@ -4,14 +4,15 @@
 #include "../network/tcp/connection.hpp"
 
 #include <thread>
+#include <atomic>
 
 namespace Lambda {
 
 	struct WorkerContext {
 		Network::TCP::Connection conn;
 		std::thread worker;
-		bool shutdownFlag = false;
-		bool finished = false;
+		std::atomic<bool> shutdownFlag = false;
+		std::atomic<bool> finished = false;
 	};
 };
 
-- 
2.43.0


From b92674a532ca59c198b58ebda56f213566034d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 27/47] fix: http transport loses pipelined and segmented
 requests, misreads connection and accept-encoding headers, sends bodies where
 they aren't allowed and enforces size limit incorrectly

---
 core/http/transport_impl.hpp |   1 +
 core/http/transport_v1.cpp   | 223 ++++++++++++++++++++++++++---------
 core/server/worker.cpp       |  13 +-
 3 files changed, 176 insertions(+), 61 deletions(-)

diff --git a/core/http/transport_impl.hpp b/core/http/transport_impl.hpp
index 756c7a0..d98ab68 100644
--- a/core/http/transport_impl.hpp
+++ b/core/http/transport_impl.hpp
@@ -27,6 +27,7 @@ namespace Lambda::HTTP::Transport {
 			std::vector<uint8_t> m_readbuff;
 			KeepAliveStatus m_keepalive = KeepAliveStatus::Unknown;
 			ContentEncodings m_compress = ContentEncodings::None;
+			bool m_headersOnly = false;
 			IncomingRequest* m_next = nullptr;
 
 		public:
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 28b5d39..410147f 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -22,10 +22,92 @@ static const std::map<ContentEncodings, std::string> contentEncodingMap = {
 	{ ContentEncodings::Deflate, "deflate" },
 };
 
+static const size_t bodyReadChunk = 64 * 1024;
+
 static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
 
+/**
+ * Splits a header that contains a comma-separated list. Values are converted to lower case
+*/
+static std::vector<std::string> getHeaderTokens(const Headers& headers, const std::string& key) {
+
+	std::vector<std::string> result;
+
+	for (const auto& value : headers.getAll(key)) {
+		for (const auto& item : Strings::split(value, ',')) {
+			const auto token = Strings::toLowerCase(Strings::trim(item));
+			if (token.size()) result.push_back(token);
+		}
+	}
+
+	return result;
+}
+
+static bool hasHeaderToken(const Headers& headers, const std::string& key, const std::string& token) {
+	const auto tokens = getHeaderTokens(headers, key);
+	return std::find(tokens.begin(), tokens.end(), token) != tokens.end();
+}
+
+static std::set<std::string> getAcceptedEncodings(const Headers& headers) {
+
+	std::set<std::string> result;
+
+	for (const auto& item : getHeaderTokens(headers, "accept-encoding")) {
+
+		const auto params = Strings::split(item, ';');
+		bool accepted = true;
+
+		//	zero weight means "not acceptable"
+		for (size_t i = 1; i < params.size(); i++) {
+			const auto param = Strings::trim(params[i]);
+			if (param.starts_with("q=") && param.find_first_not_of("0.", 2) == std::string::npos) {
+				accepted = false;
+			}
+		}
+
+		if (accepted) result.insert(Strings::trim(params[0]));
+	}
+
+	return result;
+}
+
+/**
+ * A line break in a header would end it and let it's value inject whatever comes next
+*/
+static std::string singleLine(const std::string& value) {
+	auto result = value;
+	for (auto& c : result) {
+		if (c == '\r' || c == '\n' || c == '\0') c = ' ';
+	}
+	return result;
+}
+
+static size_t parseContentLength(const Headers& headers) {
+
+	const auto values = headers.getAll("content-length");
+	if (!values.size()) return 0;
+
+	const auto& value = values.front();
+
+	for (const auto& item : values) {
+		if (item != value) {
+			throw ProtocolError("Conflicting content-length headers", 400);
+		}
+	}
+
+	if (value.find_first_not_of("0123456789") != std::string::npos) {
+		throw ProtocolError("Invalid content-length header", 400);
+	}
+
+	try {
+		return std::stoull(value);
+	} catch (const std::out_of_range&) {
+		throw ProtocolError("Total request size is too large", 413);
+	}
+}
+
 TransportContextV1::TransportContextV1(
 	Network::TCP::Connection& connInit,
 	const TransportOptions& optsInit
@@ -41,39 +123,58 @@ bool TransportContextV1::awaitNext() {
 		return true;
 	}
 
+	//	these only apply to the request that's being read
+	this->m_compress = ContentEncodings::None;
+	this->m_headersOnly = false;
+
 	static const std::string patternEndHeader = "\r\n\r\n";
-	auto headerEnded = this->m_readbuff.end();
+	auto headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
 	while (this->m_conn.isOpen() && headerEnded == this->m_readbuff.end()) {
 
+		if (this->m_readbuff.size() >= this->m_topts.maxRequestSize) {
+			throw ProtocolError("Request header too large", 413);
+		}
+
 		auto newBytes = this->m_conn.read();
 		if (!newBytes.size()) break;
 
-		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
-		headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
+		//	the pattern may be split between two chunks
+		const auto searchFrom = this->m_readbuff.size() - std::min(this->m_readbuff.size(), patternEndHeader.size() - 1);
 
-		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
-			throw ProtocolError("Request header too large", 413);
-		}
+		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
+		headerEnded = std::search(this->m_readbuff.begin() + searchFrom, this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 	}
 
 	if (!this->m_readbuff.size() || headerEnded == this->m_readbuff.end()) {
 		return false;
 	}
 
+	const size_t headerSize = std::distance(this->m_readbuff.begin(), headerEnded) + patternEndHeader.size();
+	if (headerSize > this->m_topts.maxRequestSize) {
+		throw ProtocolError("Request header too large", 413);
+	}
+
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
-	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
+	this->m_readbuff.erase(this->m_readbuff.begin(), this->m_readbuff.begin() + headerSize);
 
 	auto headerStartLine = Strings::split(headerFields.at(0), ' ');
-	if (headerStartLine.size() < 2) {
-		throw ProtocolError("Invalid HTTP request");
+	if (headerStartLine.size() != 3 || !headerStartLine.at(1).size() || !headerStartLine.at(2).starts_with("HTTP/1.")) {
+		throw ProtocolError("Invalid HTTP request", 400);
 	}
 
 	auto& requestMethodString = headerStartLine.at(0);
 	auto& requestUrlString = headerStartLine.at(1);
 
 	HTTP::Request next;
-	next.method = HTTP::Method(requestMethodString);
+
+	try {
+		next.method = HTTP::Method(requestMethodString);
+	} catch (const std::invalid_argument& err) {
+		throw ProtocolError(err.what(), 501);
+	}
+
+	this->m_headersOnly = next.method == Methods::HEAD;
 
 	for (size_t i = 1; i < headerFields.size(); i++) {
 
@@ -115,7 +216,7 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	const auto hostHeader = next.headers.get("host");
-	const auto hostHeaderSem = hostHeader.size() ? hostHeader.find(':') : std::string::npos;
+	const auto hostHeaderSem = hostHeader.find(':', hostHeader.starts_with('[') ? hostHeader.find(']') : 0);
 
 	const auto& conninfo = this->m_conn.info();
 
@@ -141,56 +242,39 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
-	if (this->m_topts.reuseConnections) {
+	this->m_keepalive = this->m_topts.reuseConnections && !hasHeaderToken(next.headers, "connection", "close") ?
+		KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
 
-		const auto connectionHeader = next.headers.get("connection");
+	if (this->m_topts.useCompression) {
 
-		switch (this->m_keepalive) {
-
-			case KeepAliveStatus::Unknown: {
-				this->m_keepalive = (!connectionHeader.size() || Strings::includes(connectionHeader, "keep-alive")) ?
-					KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
-			} break;
-
-			case KeepAliveStatus::KeepAlive: {
-				if (Strings::includes(connectionHeader, "close"))
-					this->m_keepalive = KeepAliveStatus::Close;
-			} break;
-			
-			default: break;
-		}
-	}
-
-	auto acceptEncodingHeader = next.headers.get("accept-encoding");
-	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
-
-		auto encodingNames = Strings::split(acceptEncodingHeader, ", ");
-		auto acceptEncodingsSet = std::set<std::string>(encodingNames.begin(), encodingNames.end());
+		const auto acceptEncodings = getAcceptedEncodings(next.headers);
 
 		for (const auto& encoding : contentEncodingMap) {
-			if (acceptEncodingsSet.contains(encoding.second)) {
+			if (acceptEncodings.contains(encoding.second)) {
 				this->m_compress = encoding.first;
 				break;
 			}
 		}
 	}
 
-	auto bodySizeHeader = next.headers.get("content-length");
-	size_t bodySize = bodySizeHeader.size() ? std::stoull(bodySizeHeader) : 0;
+	//	body of a request like that cannot be told from the next request
+	if (next.headers.has("transfer-encoding")) {
+		throw ProtocolError("Request transfer encoding is not supported", 501);
+	}
 
-	if (bodySize) {
+	const auto bodySize = parseContentLength(next.headers);
 
-		const auto totalRequestSize = std::distance(this->m_readbuff.begin(), headerEnded) + bodySize;
+	if (bodySize) {
 
-		if (totalRequestSize > this->m_topts.maxRequestSize) {
+		if (bodySize > this->m_topts.maxRequestSize - headerSize) {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-		auto bodyRemaining = bodySize - this->m_readbuff.size();
-		if (bodyRemaining) {
-	
-			auto temp = this->m_conn.read(bodyRemaining);
-			if (temp.size() != bodyRemaining) {
+		while (this->m_readbuff.size() < bodySize) {
+
+			const auto bodyRemaining = bodySize - this->m_readbuff.size();
+			auto temp = this->m_conn.read(std::min(bodyRemaining, bodyReadChunk));
+			if (!temp.size()) {
 				throw NetworkError("Incomplete request body");
 			}
 
@@ -232,6 +316,14 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	auto applyEncoding = ContentEncodings::None;
 	auto responseHeaders = responsectx.response.headers;
 
+	//	some responses cannot have a body, whatever it's headers say
+	const auto responseCode = responsectx.response.status.code();
+	const auto bodyForbidden = responseCode < 200 || responseCode == 204;
+	const auto headersOnly = this->m_headersOnly || responseCode == 304;
+
+	static const std::vector<uint8_t> emptyBody;
+	const auto& responseBodySource = bodyForbidden ? emptyBody : responsectx.response.body.buffer();
+
 	#ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
 
 		const auto& contentTypeHeader = responseHeaders.get("content-type");
@@ -257,10 +349,15 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 				responseHeaders.set("content-type", "text/html; charset=utf-8");
 				applyEncoding = this->m_compress;
 			}
+
+			//	leave it alone if there's nothing to compress or the handler has already encoded it
+			if (!responseBodySource.size() || responseHeaders.has("content-encoding")) {
+				applyEncoding = ContentEncodings::None;
+			}
 		}
 
 		std::vector<uint8_t> responseBodyBuffer;
-		const auto& responseBody = responsectx.response.body.buffer();
+		const auto& responseBody = responseBodySource;
 
 		switch (applyEncoding) {
 
@@ -282,7 +379,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		}
 
 	#else
-		const auto& responseBodyBuffer = responsectx.response.body.buffer();
+		const auto& responseBodyBuffer = responseBodySource;
 	#endif
 
 	const auto bodyBufferSize = responseBodyBuffer.size();
@@ -299,14 +396,22 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	responseHeaders.set("server", "maddsua/lambda");
 	responseHeaders.set("x-request-id", this->m_id.toString() + '-' + responsectx.id.toString());
 
-	//	set connection header to acknowledge keep-alive mode
-	const auto responseConnectionHeader = responseHeaders.get("connection");
-	if (responseConnectionHeader.size()) {
-		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
-			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
+	//	an upgraded connection or a stream is controlled by it's own protocol
+	const auto isProtocolSwitch = responseCode == 101 || !this->flags.forceContentLength;
+
+	if (isProtocolSwitch) {
+
+		this->m_keepalive = KeepAliveStatus::KeepAlive;
+
 	} else {
-		const auto isKeepAlive = this->m_keepalive == KeepAliveStatus::KeepAlive;
-		responseHeaders.set("connection", isKeepAlive ? "keep-alive" : "close");
+
+		//	set connection header to acknowledge keep-alive mode
+		const auto isKeepAlive = this->m_keepalive == KeepAliveStatus::KeepAlive && !hasHeaderToken(responseHeaders, "connection", "close");
+		this->m_keepalive = isKeepAlive ? KeepAliveStatus::KeepAlive : KeepAliveStatus::Close;
+
+		if (!hasHeaderToken(responseHeaders, "connection", isKeepAlive ? "keep-alive" : "close")) {
+			responseHeaders.set("connection", isKeepAlive ? "keep-alive" : "close");
+		}
 	}
 
 	std::vector<uint8_t> headerBuff;
@@ -324,7 +429,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.push_back(0x20);
 
 	//	push response status text
-	const auto& statusText = responseStatus.text();
+	const auto statusText = singleLine(responseStatus.text());
 	headerBuff.insert(headerBuff.end(), statusText.begin(), statusText.end());
 
 	static const std::string lineSeparator = "\r\n";
@@ -333,9 +438,11 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	//	serialize headers
 	static const std::string headerSeparator = ": ";
 	for (const auto& header : responseHeaders.entries()) {
-		headerBuff.insert(headerBuff.end(), header.first.begin(), header.first.end());
+		const auto headerName = singleLine(header.first);
+		const auto headerValue = singleLine(header.second);
+		headerBuff.insert(headerBuff.end(), headerName.begin(), headerName.end());
 		headerBuff.insert(headerBuff.end(), headerSeparator.begin(), headerSeparator.end());
-		headerBuff.insert(headerBuff.end(), header.second.begin(), header.second.end());
+		headerBuff.insert(headerBuff.end(), headerValue.begin(), headerValue.end());
 		headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 	}
 
@@ -343,7 +450,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 
 	this->m_conn.write(headerBuff);
-	if (bodyBufferSize) this->m_conn.write(responseBodyBuffer);
+	if (bodyBufferSize && !headersOnly) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
 	if (this->m_keepalive == KeepAliveStatus::Close) {
diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 17aad3d..3480f90 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -43,12 +43,15 @@ void Server::connectionWorker(
 			return;
 		}
 
-		const auto errorResponse = Pages::renderErrorPage(
+		auto errorResponse = Pages::renderErrorPage(
 			error.respondStatus.value(),
 			error.message(),
 			config.errorResponseType
 		);
 
+		//	it's not known where the next request starts
+		errorResponse.headers.set("connection", "close");
+
 		try {
 
 			//	Request ID is generated here.
@@ -108,7 +111,12 @@ void Server::connectionWorker(
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
 				handlerMode = HandlerMode::WS;
 				logConnectionUpgrade("Websocket");
-				return WebsocketContext({ workerctx, transport, next });
+				try {
+					return WebsocketContext({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					handlerMode = HandlerMode::HTTP;
+					throw;
+				}
 			};
 
 			const RequestContext requestCTX = {
@@ -160,7 +168,6 @@ void Server::connectionWorker(
 			try {
 				functionResponse = handlerCallback(request, requestCTX).response;
 			} catch (const UpgradeError& err) {
-				handlerMode = HandlerMode::HTTP;
 				functionResponse = handleUpgradeError(err);
 			} catch (const std::exception& err) {
 				functionResponse = handleFunctionError(err);
-- 
2.43.0


From a6fa7a19867edbe4c56bba0fedf47f6249374585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 28/47] fix: server instance can be destroyed or restarted
 before it's shutdown call is done

---
 core/network/tcp/listener.cpp | 3 +++
 core/network/tcp/listener.hpp | 1 +
 core/server/instance.cpp      | 8 +++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 17428fe..a06ce9b 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -171,6 +171,9 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
+	//	don't return until the socket is actually closed, even if it's some other thread that's closing it
+	std::lock_guard<std::mutex> stopLock(this->m_stop_mtx);
+
 	const SockHandle tempHandle = this->hSocket.exchange(INVALID_SOCKET);
 	if (tempHandle == INVALID_SOCKET) return;
 
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index a0cdc8f..b65a29a 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -20,6 +20,7 @@ namespace Lambda::Network::TCP {
 		protected:
 			std::atomic<SockHandle> hSocket;
 			std::mutex m_accept_mtx;
+			std::mutex m_stop_mtx;
 			ListenConfig config;
 
 		public:
diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 43eda44..8faa556 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -135,6 +135,10 @@ void LambdaInstance::shutdownn() {
 
 void LambdaInstance::terminate() {
 
+	//	an instance may get destroyed as soon as it's service worker exits,
+	//	so it has to wait here until a shutdown call made by some other thread is done
+	std::lock_guard<std::mutex> lock(this->m_connections_mtx);
+
 	//	reqeust service worker to exit
 	this->m_terminated = true;
 	
@@ -143,7 +147,6 @@ void LambdaInstance::terminate() {
 
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
-		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 		for (auto& worker : this->m_connections) {
 			worker.shutdownFlag = true;
 		}
@@ -156,6 +159,9 @@ void LambdaInstance::awaitFinished() {
 	if (this->serviceWorker.valid())
 		this->serviceWorker.get();
 
+	//	wait for a shutdown call to close the listen socket
+	{ std::lock_guard<std::mutex> lock(this->m_connections_mtx); }
+
 	//	Wait until all connection workers done
 	if (this->config.service.useThreadList) {
 		for (auto& item : this->m_connections) {
-- 
2.43.0


From b6d79772f614f1a66a2928890ef2a162a8dd8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 29/47] fix: websocket frames are lost, misread or read past
 the buffer when segmented, batched or fragmented, and can be sent after a
 close

---
 core/websocket/transport.cpp | 138 ++++++++++++++++++++---------------
 core/websocket/transport.hpp |   6 +-
 core/websocket/websocket.cpp |  32 ++++----
 core/websocket/websocket.hpp |   9 ++-
 4 files changed, 110 insertions(+), 75 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f65bfc2..d497f37 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -1,6 +1,8 @@
 #include "./websocket.hpp"
 #include "./transport.hpp"
 
+#include <algorithm>
+
 using namespace Lambda;
 using namespace Lambda::Websocket;
 using namespace Lambda::Websocket::Transport;
@@ -11,6 +13,7 @@ static const std::string wsPingString = "ping/lambda/ws";
 static const time_t wsActTimeout = 5000;
 static const unsigned short wsMaxSkippedAttempts = 3;
 static const size_t wsReadChunk = 256;
+static const size_t wsMaxReadChunk = 64 * 1024;
 
 static const std::initializer_list<OpCode> supportedWsOpcodes = {
 	OpCode::Binary,
@@ -23,15 +26,36 @@ static const std::initializer_list<OpCode> supportedWsOpcodes = {
 
 void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
 	if (this->m_stopped) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
 
 	auto writeBuff = serializeMessage(msg);
+
+	//	only the first frame of a multipart message has a type
+	if (this->m_partial_sent) {
+		writeBuff[0] &= static_cast<std::underlying_type_t<FrameControlBits>>(FrameControlBits::BitFinal);
+	}
+
+	this->m_partial_sent = msg.partial;
 	this->m_transport.writeRaw(writeBuff);
 }
 
-FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+void WebsocketContext::writeFrame(const std::vector<uint8_t>& frame) {
+
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	//	nothing can be sent after a close frame
+	if (this->m_stopped) return;
+
+	this->m_transport.writeRaw(frame);
+}
+
+std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+
+	if (buffer.size() < FrameHeader::min_size) return std::nullopt;
 
 	FrameHeader header {
 		static_cast<FrameControlBits>(buffer.at(0) & 0xF0),
@@ -42,12 +66,14 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 
 	if (header.payloadSize == 126) {
 		header.size += 2;
+		if (buffer.size() < header.size) return std::nullopt;
 		header.payloadSize = (buffer.at(2) << 8) | buffer.at(3);
 	} else if (header.payloadSize == 127) {
 		header.size += 8;
+		if (buffer.size() < header.size) return std::nullopt;
 		header.payloadSize = 0;
 		for (int i = 0; i < 8; i++) {
-			header.payloadSize |= (buffer.at(2 + i) << ((7 - i) * 8));
+			header.payloadSize |= (static_cast<uint64_t>(buffer.at(2 + i)) << ((7 - i) * 8));
 		}
 	}
 
@@ -55,7 +81,7 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 	if (maskUsed) {
 
 		if (buffer.size() < header.size + FrameHeader::mask_size) {
-			throw std::runtime_error("invalid websocket frame: not enough data to read mask");
+			return std::nullopt;
 		}
 
 		std::array<uint8_t, FrameHeader::mask_size> mask;
@@ -130,31 +156,28 @@ void WebsocketContext::asyncWorker() {
 
 		} else if ((std::chrono::steady_clock::now() - lastPing) > std::chrono::milliseconds(wsActTimeout)) {
 
-			auto pingHeader = serializeFrameHeader({
+			auto pingFrame = serializeFrameHeader({
 				FrameControlBits::BitFinal,
 				OpCode::Ping,
 				static_cast<size_t>(0),
 				wsPingString.size()
 			});
 
-			this->m_transport.writeRaw(pingHeader);
-			this->m_transport.writeRaw(std::vector<uint8_t>(wsPingString.begin(), wsPingString.end()));
+			pingFrame.insert(pingFrame.end(), wsPingString.begin(), wsPingString.end());
+			this->writeFrame(pingFrame);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
 
-		const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
-		if (!nextChunk.size()) continue;
+		const auto nextHeader = parseFrameHeader(downloadBuff);
 
-		downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
-		if (downloadBuff.size() < FrameHeader::min_size) continue;
-
-		if (downloadBuff.size() > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("Expected frame size too large");
+		if (!nextHeader.has_value()) {
+			const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
+			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			continue;
 		}
 
-		auto frameHeader = parseFrameHeader(downloadBuff);
+		const auto& frameHeader = nextHeader.value();
 
 		bool opcodeValid = false;
 		for (const auto& item : supportedWsOpcodes) {
@@ -169,46 +192,44 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
 		}
 
-		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
-		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
-
-		if (frameSize > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("frame size too large");
+		if (frameHeader.finbit != FrameControlBits::BitFinal && frameHeader.finbit != FrameControlBits::BitContinue) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a frame with reserved bits set");
 		}
 
-		if (frameHeader.payloadSize + frameHeader.payloadSize < downloadBuff.size()) {
-
-			auto expectedSize = frameHeader.payloadSize - payloadBuff.size();
-			auto payloadChunk = this->m_transport.readRaw(expectedSize);
+		if (!frameHeader.mask.has_value()) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received unmasked data from the client");
+		}
 
-			if (payloadChunk.size() < expectedSize) {
-				this->close(CloseReason::ProtocolError);
-				throw std::runtime_error("failed to read websocket frame: not enough data");
-			}
+		const auto isControlFrame = frameHeader.opcode == OpCode::Close || frameHeader.opcode == OpCode::Ping || frameHeader.opcode == OpCode::Pong;
 
-			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
+		if (isControlFrame && (frameHeader.finbit != FrameControlBits::BitFinal || frameHeader.payloadSize > 125)) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received an invalid control frame");
 		}
 
-		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
+		if (!isControlFrame && (frameHeader.opcode == OpCode::Continue) != multipartCtx.has_value()) {
 			this->close(CloseReason::ProtocolError);
-			throw std::runtime_error("received unmasked data from the client");
+			throw std::runtime_error("received a message part that is out of order");
 		}
 
-		if (frameHeader.finbit != FrameControlBits::BitFinal) {
-
-			if (!multipartCtx.has_value()) {
+		if (frameHeader.payloadSize > this->m_topts.maxRequestSize || frameHeader.size > this->m_topts.maxRequestSize - frameHeader.payloadSize) {
+			this->close(CloseReason::MessageTooBig);
+			throw std::runtime_error("frame size too large");
+		}
 
-				multipartCtx = MultipartMessageContext({
-					frameHeader.mask.value(),
-					frameHeader.opcode == OpCode::Binary
-				});
+		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
 
-			} else {
-				frameHeader.mask = multipartCtx.value().mask;
-			}
+		if (downloadBuff.size() < frameSize) {
+			const auto expectedSize = std::clamp(frameSize - downloadBuff.size(), wsReadChunk, wsMaxReadChunk);
+			const auto nextChunk = this->m_transport.readRaw(expectedSize);
+			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			continue;
 		}
 
+		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
+
 		//	unmask the payload
 		const auto& frameMask = frameHeader.mask.value();
 		for (size_t i = 0; i < payloadBuff.size(); i++) {
@@ -218,55 +239,56 @@ void WebsocketContext::asyncWorker() {
 		switch (frameHeader.opcode) {
 
 			case OpCode::Close: {
-				this->m_stopped = true;
 				this->close(CloseReason::Normal);
 			} break;
 
 			case OpCode::Ping: {
 
-				const auto pongHeader = serializeFrameHeader({
+				auto pongFrame = serializeFrameHeader({
 					FrameControlBits::BitFinal,
 					OpCode::Pong,
 					static_cast<size_t>(0),
 					frameHeader.payloadSize
 				});
 
-				this->m_transport.writeRaw(pongHeader);
-				this->m_transport.writeRaw(payloadBuff);
+				pongFrame.insert(pongFrame.end(), payloadBuff.begin(), payloadBuff.end());
+				this->writeFrame(pongFrame);
 
 			} break;
 
 			case OpCode::Pong: {
 
-				//	check that pong payload matches the ping's one
+				//	check that pong payload matches the ping's one.
+				//	clients are allowed to send unsolicited pongs, these don't mean anything
 				if (std::equal(payloadBuff.begin(), payloadBuff.end(), wsPingString.begin(), wsPingString.end())) {
 					lastPingResponse = std::chrono::steady_clock::now();
-				} else {
-					this->close(CloseReason::ProtocolError);
-					throw std::runtime_error("invalid pong reponse");
 				}
 
 			} break;
 
 			default: {
 
-				const auto isBinary = frameHeader.opcode == OpCode::Continue ?
-					multipartCtx.value().binary : 
+				const auto isBinary = multipartCtx.has_value() ?
+					multipartCtx.value().binary :
 					frameHeader.opcode == OpCode::Binary;
 
+				const auto isPartial = frameHeader.finbit != FrameControlBits::BitFinal;
+
+				if (isPartial) {
+					multipartCtx = MultipartMessageContext({ isBinary });
+				} else {
+					multipartCtx = std::nullopt;
+				}
+
 				std::lock_guard<std::mutex>lock(this->m_read_mtx);
 				this->m_queue.push({
 					payloadBuff,
 					isBinary,
-					frameHeader.finbit == FrameControlBits::BitFinal
+					isPartial
 				});
 			}
 		}
 
-		if (frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
-			multipartCtx = std::nullopt;
-		}
-
-		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameHeader.size + frameHeader.payloadSize);
+		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameSize);
 	}
 }
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index f9e300f..8537ab1 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -36,11 +36,13 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	struct MultipartMessageContext {
-		std::array<uint8_t, FrameHeader::mask_size> mask;
 		bool binary = false;
 	};
 
-	FrameHeader parseFrameHeader(const std::vector<uint8_t>& buffer);
+	/**
+	 * Returns nothing if there isn't enough data to parse a header
+	*/
+	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
 	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index c110519..d25e5d2 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -66,11 +66,7 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 
 WebsocketContext::~WebsocketContext() {
 
-	if (!this->m_stopped && this->m_transport.isConnected()) {
-		this->close(CloseReason::GoingAway);
-	}
-
-	this->m_stopped = true;
+	this->close(CloseReason::GoingAway);
 
 	if (this->m_reader.valid()) {
 		try { this->m_reader.get(); }
@@ -80,7 +76,10 @@ WebsocketContext::~WebsocketContext() {
 
 void WebsocketContext::close(Websocket::CloseReason reason) {
 
-	this->m_stopped = true;
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
+
+	//	there can only be one close frame
+	if (this->m_stopped.exchange(true)) return;
 
 	const auto closeReasonCode = Bits::netwnormx(static_cast<std::underlying_type_t<CloseReason>>(reason));
 
@@ -96,22 +95,28 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 
 	closeMessageBuff.insert(closeMessageBuff.end(), closeReasonBuff.begin(), closeReasonBuff.end());	
 
-	this->m_transport.writeRaw(closeMessageBuff);
+	try {
+		this->m_transport.writeRaw(closeMessageBuff);
+	} catch (const std::exception&) {
+		//	the client is already gone
+	}
+
 	this->m_transport.close();
 }
 
 bool WebsocketContext::hasMessage() const noexcept {
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
 	return this->m_queue.size() > 0;
 }
 
 Message WebsocketContext::nextMessage() {
 
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("Message queue is empty");
 	}
 
-	std::lock_guard<std::mutex>lock(this->m_read_mtx);
-
 	Message temp = this->m_queue.front();
 	this->m_queue.pop();
 
@@ -121,19 +126,20 @@ Message WebsocketContext::nextMessage() {
 bool WebsocketContext::awaitMessage() {
 
 	if (!this->m_reader.valid() || this->m_worker.shutdownFlag) {
-		return this->m_queue.size();
+		return this->hasMessage();
 	}
 
 	auto readerDone = false;
-	while (!readerDone && !this->m_queue.size() && !this->m_worker.shutdownFlag) {
+	while (!readerDone && !this->hasMessage() && !this->m_worker.shutdownFlag) {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
-	if (readerDone) {
+	//	everything that was received has to be read before reporting that the reader has exited
+	if (readerDone && !this->hasMessage()) {
 		this->m_reader.get();
 	}
 
-	return this->m_queue.size();
+	return this->hasMessage();
 }
 
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 28f2439..e91fd87 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -9,6 +9,8 @@
 #include <vector>
 #include <future>
 #include <queue>
+#include <atomic>
+#include <mutex>
 
 namespace Lambda::Websocket {
 
@@ -57,9 +59,12 @@ namespace Lambda::Websocket {
 
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
-			std::mutex m_read_mtx;
-			bool m_stopped = false;
+			mutable std::mutex m_read_mtx;
+			std::mutex m_write_mtx;
+			std::atomic<bool> m_stopped = false;
+			bool m_partial_sent = false;
 			void asyncWorker();
+			void writeFrame(const std::vector<uint8_t>& frame);
 
 		public:
 			WebsocketContext(WebsocketInit init);
-- 
2.43.0


From 16b778b0804fac669c3ddf1616b0b8ae02f58d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 30/47] fix: multi-line server-sent events lose everything
 after the first line

---
 core/sse/writer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index fa8033f..2d615cf 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -1,6 +1,8 @@
 #include "./sse.hpp"
 #include "../polyfill/polyfill.hpp"
 
+#include <algorithm>
+
 using namespace Lambda;
 using namespace Lambda::Network;
 using namespace Lambda::SSE;
@@ -44,7 +46,14 @@ void Writer::push(const EventMessage& event) {
 		messageFields.push_back({ "id", event.id.value() });
 	}
 
-	messageFields.push_back({ "data", event.data });
+	//	every line of the data needs it's own field
+	for (size_t lineStart = 0; lineStart <= event.data.size(); ) {
+
+		const auto lineEnd = std::min(event.data.find_first_of("\r\n", lineStart), event.data.size());
+		messageFields.push_back({ "data", event.data.substr(lineStart, lineEnd - lineStart) });
+
+		lineStart = lineEnd + (event.data.compare(lineEnd, 2, "\r\n") == 0 ? 2 : 1);
+	}
 
 	if (event.retry.has_value()) {
 		messageFields.push_back({ "retry", std::to_string(event.retry.value()) });
-- 
2.43.0


From 0447c41dcb2cce9f96c6d5dad67ff2a64126e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 31/47] fix: unknown method echoed back to the client

---
 core/http/transport_v1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 410147f..d1018c5 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -170,8 +170,8 @@ bool TransportContextV1::awaitNext() {
 
 	try {
 		next.method = HTTP::Method(requestMethodString);
-	} catch (const std::invalid_argument& err) {
-		throw ProtocolError(err.what(), 501);
+	} catch (const std::invalid_argument&) {
+		throw ProtocolError("Unknown HTTP method", 501);
 	}
 
 	this->m_headersOnly = next.method == Methods::HEAD;
-- 
2.43.0


From 78af3e101464667808f7f09c75636dbb3a23b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 32/47] fix: error page text gets lost or rendered as markup

---
 core/server/errorpage.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/server/errorpage.cpp b/core/server/errorpage.cpp
index 87d66e1..41fbb89 100644
--- a/core/server/errorpage.cpp
+++ b/core/server/errorpage.cpp
@@ -9,6 +9,25 @@ using namespace Lambda::HTML;
 using namespace Lambda::Server;
 using namespace Lambda::Server::Pages;
 
+static std::string escapeHtml(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (const auto c : text) {
+		switch (c) {
+			case '&': result += "&amp;"; break;
+			case '<': result += "&lt;"; break;
+			case '>': result += "&gt;"; break;
+			case '"': result += "&quot;"; break;
+			case '\'': result += "&#39;"; break;
+			default: result += c; break;
+		}
+	}
+
+	return result;
+}
+
 HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& message) {
 	return renderErrorPage(code, message, ErrorResponseType::HTML);
 }
@@ -22,8 +41,8 @@ HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& mess
 		case ErrorResponseType::HTML: {
 			errorResponse.body = renderTemplate(Templates::servicePage, {
 				{ "svcpage_statuscode", std::to_string(code.code()) },
-				{ "svcpage_statustext", code.text() },
-				{ "svcpage_message_text", message }
+				{ "svcpage_statustext", escapeHtml(code.text()) },
+				{ "svcpage_message_text", escapeHtml(message) }
 			});
 			errorResponse.headers.set("content-type", "text/html");
 		} break;
-- 
2.43.0


From 318e3a846dbf2365bb81ead2f71ffa05b0067337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 33/47] fix: data in flight is lost when the client keeps
 sending to a connection that is being closed

---
 core/network/tcp/connection.cpp | 50 +++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 6f745eb..aea7546 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -2,6 +2,14 @@
 #include "../sysnetw.hpp"
 
 #include <set>
+#include <chrono>
+#include <thread>
+
+#ifdef __linux__
+	#include <netinet/tcp.h>
+	#include <sys/ioctl.h>
+	#include <linux/sockios.h>
+#endif
 
 using namespace Lambda::Network;
 using namespace Lambda::Network::TCP;
@@ -22,6 +30,28 @@ static const std::set<int> disconnectedCodes = {
 	#endif
 };
 
+#ifdef __linux__
+
+/**
+ * Tells if the peer still has to receive some of the data.
+ * Only works after the write end of a socket was shut down
+*/
+static bool hasDataInFlight(SockHandle handle) noexcept {
+
+	tcp_info info;
+	socklen_t infoSize = sizeof(info);
+	int bytesQueued = 0;
+
+	if (getsockopt(handle, IPPROTO_TCP, TCP_INFO, &info, &infoSize) || ioctl(handle, SIOCOUTQ, &bytesQueued)) {
+		return false;
+	}
+
+	//	shutdown itself takes up one byte
+	return info.tcpi_state != TCP_CLOSE && bytesQueued > 1;
+}
+
+#endif
+
 Connection::Connection(
 	SockHandle handleInit,
 	const ConnectionInfo& infoInit
@@ -57,6 +87,26 @@ void Connection::end() noexcept {
 	const SockHandle tempHandle = this->hSocket.exchange(INVALID_SOCKET);
 	if (tempHandle == INVALID_SOCKET) return;
 
+	#ifdef __linux__
+
+		//	anything that is received after closing a socket makes the system drop all the data
+		//	that is still on it's way to the peer, so let it get delivered first
+		shutdown(tempHandle, SHUT_WR);
+
+		auto timeoutMs = this->m_info.timeouts.send;
+		if (!timeoutMs) timeoutMs = Connection::TimeoutMs;
+
+		const auto deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs);
+
+		while (hasDataInFlight(tempHandle) && std::chrono::steady_clock::now() < deadline) {
+			char discard[DefaultChunkSize];
+			if (recv(tempHandle, discard, sizeof(discard), MSG_DONTWAIT) <= 0) {
+				std::this_thread::sleep_for(std::chrono::milliseconds(1));
+			}
+		}
+
+	#endif
+
 	shutdown(tempHandle, SD_BOTH);
 
 	#ifndef _WIN32
-- 
2.43.0


From c0e49df4f278167edfb3a7183cd591af53fd0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 34/47] fix: reads that are in progress can miss data when some
 other thread ends the connection

---
 core/network/tcp/connection.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index aea7546..6a6bbeb 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -99,8 +99,13 @@ void Connection::end() noexcept {
 		const auto deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs);
 
 		while (hasDataInFlight(tempHandle) && std::chrono::steady_clock::now() < deadline) {
+
+			//	a read that is still in progress has to get it's data first
+			std::unique_lock<std::mutex> readLock(this->m_read_mtx, std::try_to_lock);
+
 			char discard[DefaultChunkSize];
-			if (recv(tempHandle, discard, sizeof(discard), MSG_DONTWAIT) <= 0) {
+			if (!readLock.owns_lock() || recv(tempHandle, discard, sizeof(discard), MSG_DONTWAIT) <= 0) {
+				if (readLock.owns_lock()) readLock.unlock();
 				std::this_thread::sleep_for(std::chrono::milliseconds(1));
 			}
 		}
-- 
2.43.0


From a175720b915b626b39277692078cbf41e0678ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 35/47] fix: connection limit of 0, which stands for unlimited,
 gets rejected

---
 core/server/instance.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 8faa556..b9f1398 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -28,7 +28,8 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		syncout.log("[Service] Warning: fast port reuse enabled");
 	}
 
-	if (init.service.maxConnections < ServiceOptions::minConnections) {
+	//	0 stands for no limit
+	if (init.service.maxConnections && init.service.maxConnections < ServiceOptions::minConnections) {
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
-- 
2.43.0


From 57307e4a0a5ccc3ddc8766ed2bf41c298a27453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 36/47] fix: take the query of a request target up to its
 fragment and keep empty queries out of the way

---
 core/http/transport_v1.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index d1018c5..cf52aa4 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -199,20 +199,14 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	//	parse request url
-	const auto urlSearchPos = requestUrlString.find('?');
-	//	I'll leave it here for redundancy
-	const auto urlHashPos = requestUrlString.find('#', urlSearchPos != std::string::npos ? urlSearchPos : 0);
-	const auto pathnameEndPos = std::min({ urlSearchPos, urlHashPos });
-
-	next.url.pathname = pathnameEndPos == std::string::npos ?
-		requestUrlString :
-		(pathnameEndPos ? requestUrlString.substr(0, pathnameEndPos) : "/");
-
-	if (urlSearchPos != std::string::npos) {
-		auto trimSize = urlHashPos != std::string::npos ? (urlHashPos - urlSearchPos - 1) : 0;
-		next.url.searchParams = trimSize ?
-			requestUrlString.substr(urlSearchPos + 1, trimSize) :
-			requestUrlString.substr(urlSearchPos + 1);
+	//	I'll leave hash here for redundancy
+	const auto urlHashPos = requestUrlString.find('#');
+	const auto urlSearchPos = std::min(requestUrlString.find('?'), urlHashPos);
+
+	next.url.pathname = urlSearchPos ? requestUrlString.substr(0, urlSearchPos) : "/";
+
+	if (urlSearchPos < urlHashPos) {
+		next.url.searchParams = requestUrlString.substr(urlSearchPos + 1, urlHashPos - urlSearchPos - 1);
 	}
 
 	const auto hostHeader = next.headers.get("host");
-- 
2.43.0


From 5abd399e505e9b9d0b6ba28be4bf632ee5b47521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 37/47] fix: keep the code intact when generating the single
 file header

---
 tools/gensfi/main.cpp | 87 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 17 deletions(-)

diff --git a/tools/gensfi/main.cpp b/tools/gensfi/main.cpp
index 8a2ad31..7f0f29a 100644
--- a/tools/gensfi/main.cpp
+++ b/tools/gensfi/main.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <sstream>
 #include <vector>
 #include <stdexcept>
 #include <filesystem>
@@ -30,6 +31,7 @@ RecolvePathResult parseIncludePath(const std::string input);
 std::string resolvePath(const std::string& a, const std::string& b);
 std::string includeHeader(const std::string& inputHeader, IncludeCtx& ctx);
 std::string readTextFile(const std::string& location);
+std::string removeComments(const std::string& text);
 
 int main(int argc, char const *argv[]) {
 
@@ -86,7 +88,8 @@ int main(int argc, char const *argv[]) {
 
 	for (const auto& item : templateReplacements) {
 		auto varexpr = std::regex("\\{\\s*\\{\\s*" + item.first + "\\s*\\}\\s*\\}", ECMAScript | icase);
-		result = std::regex_replace(result, varexpr, item.second);
+		//	dollar signs have a special meaning in a replacement string
+		result = std::regex_replace(result, varexpr, std::regex_replace(item.second, std::regex("\\$"), "$$$$"));
 	}
 
 	printf("Writing \"%s\"\n", opts.outputHeader.c_str());
@@ -120,12 +123,67 @@ RecolvePathResult parseIncludePath(const std::string input) {
 	auto includePath = std::regex_replace(std::regex_replace(input, std::regex("^\\s*\\#include\\s*", ECMAScript | icase), ""), std::regex("\\s*$"), "");
 	bool isStdHeader = includePath.starts_with("<");
 
+	//	there may be a comment after the path
+	const auto endIdx = includePath.find(isStdHeader ? '>' : '"', 1);
+	if (endIdx == std::string::npos) {
+		throw std::runtime_error("Invalid include directive: " + input);
+	}
+
 	return {
-		isStdHeader ? includePath : includePath.substr(1, includePath.size() - 2),
+		isStdHeader ? includePath.substr(0, endIdx + 1) : includePath.substr(1, endIdx - 1),
 		!isStdHeader
 	};
 }
 
+/**
+ * Removes regular comment blocks and comments that take up an entire line.
+ * Documentation comment blocks are left in place
+*/
+std::string removeComments(const std::string& text) {
+
+	std::string result;
+	bool lineEmpty = true;
+
+	for (size_t i = 0; i < text.size();) {
+
+		size_t end = i + 1;
+		bool keep = true;
+
+		if (text.compare(i, 2, "//") == 0) {
+
+			end = std::min(text.find('\n', i), text.size());
+			keep = !lineEmpty;
+
+		} else if (text.compare(i, 2, "/*") == 0) {
+
+			const auto blockEnd = text.find("*/", i + 2);
+			end = blockEnd == std::string::npos ? text.size() : blockEnd + 2;
+			keep = end - i < 3 || !isspace(static_cast<unsigned char>(text[i + 2]));
+
+		} else if (text[i] == '"' || text[i] == '\'') {
+
+			while (end < text.size() && text[end] != text[i] && text[end] != '\n') {
+				end += text[end] == '\\' ? 2 : 1;
+			}
+
+			end = std::min(end + 1, text.size());
+		}
+
+		if (keep) {
+			result.append(text, i, end - i);
+		} else {
+			result.push_back(' ');
+		}
+
+		if (text[end - 1] == '\n') lineEmpty = true;
+		else if (keep && !isspace(static_cast<unsigned char>(text[i]))) lineEmpty = false;
+
+		i = end;
+	}
+
+	return result;
+}
+
 std::string resolvePath(const std::string& base, const std::string& path) {
 
 	auto basePath = std::filesystem::relative(base).remove_filename().generic_string();
@@ -139,18 +197,15 @@ std::string resolvePath(const std::string& base, const std::string& path) {
 
 std::string includeHeader(const std::string& inputHeaderPath, IncludeCtx& ctx) {
 
-	std::ifstream file(inputHeaderPath);
-
-	if (!file.is_open()) {
-		throw std::runtime_error("couldn't read the file \"" + inputHeaderPath + "\"\n");
-	}
+	std::istringstream file(removeComments(readTextFile(inputHeaderPath)));
 
 	std::vector<std::string> lines;
 	std::string line;
-	while (std::getline(file, line))
+	while (std::getline(file, line)) {
+		//	regex dots don't match carriage returns
+		if (line.ends_with('\r')) line.pop_back();
 		lines.push_back(line);
-
-	file.close();
+	}
 
 	std::vector<std::string> resultingLines;
 
@@ -182,19 +237,17 @@ std::string includeHeader(const std::string& inputHeaderPath, IncludeCtx& ctx) {
 	}
 
 	//	remove include guards
-	result = std::regex_replace(result, std::regex("\\s*\\#ifndef.+LIB.*LAMBDA.+[\\r\\n]+\\s*\\#define.*"), "");
-	result = std::regex_replace(result, std::regex("[\\r\\n\\s]+\\#endif[\\r\\n\\s]+$"), "\n");
-
-	//	remove comment blocks
-	result = std::regex_replace(result, std::regex("\\/\\*[\\r\\n\t ](\\*(?!\\/)|[^*])*\\*\\/", ECMAScript | icase), "");
-	result = std::regex_replace(result, std::regex("[\\r\\n]\\s*\\/{2}.*[\\r\\n]", ECMAScript | icase), "\n");
+	const auto guardRemoved = std::regex_replace(result, std::regex("\\s*\\#ifndef.+LIB.*LAMBDA.+[\\r\\n]+\\s*\\#define.*"), "");
+	if (guardRemoved != result) {
+		result = std::regex_replace(guardRemoved, std::regex("[\\r\\n\\s]+\\#endif[^\\r\\n]*[\\r\\n\\s]*$"), "\n");
+	}
 
 	//	removed repeating new lines
 	auto newlineNormalized = std::regex_replace(result, std::regex("\\r", ECMAScript | icase), "");
 	result = std::regex_replace(newlineNormalized, std::regex("\\n{3,}", ECMAScript | icase), "\n\n");
 
 	//	remove empty lines
-	result = std::regex_replace(result, std::regex("[\\r\\n][\\t ]+[\\r\\n]", ECMAScript | icase), "");
+	result = std::regex_replace(result, std::regex("[\\r\\n][\\t ]+[\\r\\n]", ECMAScript | icase), "\n");
 
 	return result;
 }
-- 
2.43.0


From d64c09a7d61e755e291c8cffa4636436ba1cd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 38/47] fix: show the requested path as plain text on the not
 found page of the static server

---
 core/html/html.hpp                  |  5 +++++
 core/html/renderer.cpp              | 19 +++++++++++++++++++
 core/server/errorpage.cpp           | 23 ++---------------------
 extra/staticserver/staticserver.cpp |  2 +-
 4 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/core/html/html.hpp b/core/html/html.hpp
index 44efeab..8bd1957 100644
--- a/core/html/html.hpp
+++ b/core/html/html.hpp
@@ -12,6 +12,11 @@ namespace Lambda::HTML {
 
 	typedef std::map<std::string, std::string> TemplateProps;
 	std::string renderTemplate(const std::string& templateSource, const TemplateProps& props);
+
+	/**
+	 * Makes a text safe to be placed inside of an html document
+	*/
+	std::string escapeText(const std::string& text);
 };
 
 #endif
diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 5fe5613..79973c5 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -34,6 +34,25 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 	return result;
 }
 
+std::string HTML::escapeText(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (const auto c : text) {
+		switch (c) {
+			case '&': result += "&amp;"; break;
+			case '<': result += "&lt;"; break;
+			case '>': result += "&gt;"; break;
+			case '"': result += "&quot;"; break;
+			case '\'': result += "&#39;"; break;
+			default: result += c; break;
+		}
+	}
+
+	return result;
+}
+
 std::optional<std::string> getTemplateVariableFromSlice(const std::string& source, size_t startpos, size_t endpost) {
 
 	static auto isVarname = [](char chr) {
diff --git a/core/server/errorpage.cpp b/core/server/errorpage.cpp
index 41fbb89..aee217c 100644
--- a/core/server/errorpage.cpp
+++ b/core/server/errorpage.cpp
@@ -9,25 +9,6 @@ using namespace Lambda::HTML;
 using namespace Lambda::Server;
 using namespace Lambda::Server::Pages;
 
-static std::string escapeHtml(const std::string& text) {
-
-	std::string result;
-	result.reserve(text.size());
-
-	for (const auto c : text) {
-		switch (c) {
-			case '&': result += "&amp;"; break;
-			case '<': result += "&lt;"; break;
-			case '>': result += "&gt;"; break;
-			case '"': result += "&quot;"; break;
-			case '\'': result += "&#39;"; break;
-			default: result += c; break;
-		}
-	}
-
-	return result;
-}
-
 HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& message) {
 	return renderErrorPage(code, message, ErrorResponseType::HTML);
 }
@@ -41,8 +22,8 @@ HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& mess
 		case ErrorResponseType::HTML: {
 			errorResponse.body = renderTemplate(Templates::servicePage, {
 				{ "svcpage_statuscode", std::to_string(code.code()) },
-				{ "svcpage_statustext", escapeHtml(code.text()) },
-				{ "svcpage_message_text", escapeHtml(message) }
+				{ "svcpage_statustext", escapeText(code.text()) },
+				{ "svcpage_message_text", escapeText(message) }
 			});
 			errorResponse.headers.set("content-type", "text/html");
 		} break;
diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 4b71c60..3a122ed 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -138,7 +138,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
-			{ "svcpage_message_text", '"' + pathname + "\" could not be located" }
+			{ "svcpage_message_text", '"' + escapeText(pathname) + "\" could not be located" }
 		}));
 	}
 
-- 
2.43.0


From 9a9dedb382184e78ab3d0d60a2afe674f57bca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 39/47] fix: keep the names in dates english in any locale

---
 core/polyfill/date.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/core/polyfill/date.cpp b/core/polyfill/date.cpp
index 04b7980..4985d0a 100644
--- a/core/polyfill/date.cpp
+++ b/core/polyfill/date.cpp
@@ -9,6 +9,23 @@
 
 using namespace Lambda;
 
+static const char* const dayNames[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
+static const char* const monthNames[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
+
+/**
+ * Does the same thing as strftime, except that the names always stay english, while strftime would translate them to the current locale
+*/
+static size_t formatTime(char* buffer, size_t size, std::string format, const tm* timestruct) noexcept {
+
+	const auto dayPos = format.find("%a");
+	if (dayPos != std::string::npos) format.replace(dayPos, 2, dayNames[static_cast<unsigned int>(timestruct->tm_wday) % 7]);
+
+	const auto monthPos = format.find("%b");
+	if (monthPos != std::string::npos) format.replace(monthPos, 2, monthNames[static_cast<unsigned int>(timestruct->tm_mon) % 12]);
+
+	return strftime(buffer, size, format.c_str(), timestruct);
+}
+
 Date::Date() noexcept {
 	this->epoch = std::time(nullptr);
 	gmtime_r(&this->epoch, &this->timestruct);
@@ -25,19 +42,19 @@ time_t Date::getTime() const noexcept {
 
 std::string Date::toUTCString() const noexcept {
 	char timebuff[64];
-	strftime(timebuff, sizeof(timebuff), "%a, %d %b %Y %H:%M:%S GMT", &this->timestruct);
+	formatTime(timebuff, sizeof(timebuff), "%a, %d %b %Y %H:%M:%S GMT", &this->timestruct);
 	return timebuff;
 }
 
 std::string Date::toHRTString() const noexcept {
 	char timebuff[32];
-	strftime(timebuff, sizeof(timebuff), "%d %b %Y %H:%M:%S", &this->timestruct);
+	formatTime(timebuff, sizeof(timebuff), "%d %b %Y %H:%M:%S", &this->timestruct);
 	return std::string(timebuff);
 }
 
 std::string Date::getDate() const noexcept {
 	char timebuff[64];
-	strftime(timebuff, sizeof(timebuff), "%a, %d %b %Y", &this->timestruct);
+	formatTime(timebuff, sizeof(timebuff), "%a, %d %b %Y", &this->timestruct);
 	return timebuff;
 }
 
-- 
2.43.0


From 79ed19bac846fd978ac66cd90ecea4d3c92134a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 40/47] fix: don't let the locale decide what is a base64
 symbol

---
 core/encoding/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index a0ab008..0f737d4 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -48,7 +48,9 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 	//	check base64 string validity real quick
 	for (size_t i = 0; i < data.size(); i++) {
 		auto symbol = data[i];
-		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && symbol != '=')
+		//	what isalnum accepts depends on the locale
+		const bool isAlnum = (symbol >= '0' && symbol <= '9') || (symbol >= 'A' && symbol <= 'Z') || (symbol >= 'a' && symbol <= 'z');
+		if (!isAlnum && symbol != '+' && symbol != '/' && symbol != '=')
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
 
-- 
2.43.0


From ad257cc438d510d293b1dc8a3dbaf3013d563dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 41/47] fix: don't let the locale decide what is a template
 variable name

---
 core/html/renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 79973c5..cfc36ce 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -56,7 +56,7 @@ std::string HTML::escapeText(const std::string& text) {
 std::optional<std::string> getTemplateVariableFromSlice(const std::string& source, size_t startpos, size_t endpost) {
 
 	static auto isVarname = [](char chr) {
-		return chr == '_' || isalnum(chr);
+		return chr == '_' || (chr >= '0' && chr <= '9') || (chr >= 'A' && chr <= 'Z') || (chr >= 'a' && chr <= 'z');
 	};
 
 	static auto isWhitespace = [](char chr) {
-- 
2.43.0


From 4b7d3a0bfc50668de9cbde94ada413fec49ade4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 42/47] fix: keep json numbers intact in any locale, beyond 32
 bits and when rounded twice

---
 core/json/parse.cpp     | 22 +++++++++++++++++++++-
 core/json/property.cpp  |  9 +++++++++
 core/json/stringify.cpp | 12 +++++++++---
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 9fd07ed..56f3984 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,6 +1,7 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
+#include <charconv>
 #include <stdexcept>
 
 using namespace Lambda;
@@ -79,6 +80,16 @@ static std::string unescapeText(const std::string& text) {
 	return result;
 }
 
+//	unlike std::stold it always takes a dot as the decimal point, no matter the locale
+static long double readFloat(const std::string& text) {
+
+	long double value = 0;
+	if (std::from_chars(text.data(), text.data() + text.size(), value).ec != std::errc())
+		throw std::runtime_error("Invalid JSON: malformed number");
+
+	return value;
+}
+
 static Property parseValue(const std::string& text, size_t depth) {
 
 	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: nested too deep");
@@ -102,7 +113,16 @@ static Property parseValue(const std::string& text, size_t depth) {
 			return Property(unescapeText(textcontent));
 
 		} else if (isdigit(objectText.at(0)) || objectText.at(0) == '-') {
-			return objectText.find_first_of(".eE") == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+
+			if (objectText.find_first_of(".eE") != std::string::npos) return Property(readFloat(objectText));
+
+			try {
+				return Property(std::stoi(objectText));
+			} catch (const std::out_of_range&) {
+				//	integers of more than 32 bits are still perfectly fine numbers
+				return Property(readFloat(objectText));
+			}
+
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
diff --git a/core/json/property.cpp b/core/json/property.cpp
index 96905ee..19576b0 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,5 +1,6 @@
 #include "./json.hpp"
 
+#include <cstdint>
 #include <stdexcept>
 
 using namespace Lambda;
@@ -44,6 +45,14 @@ Property::Property(int32_t value) {
 }
 
 Property::Property(uint32_t value) {
+
+	//	a half of the range doesn't fit into a signed integer
+	if (value > static_cast<uint32_t>(INT32_MAX)) {
+		this->internalType = JSTypes::Float;
+		this->internalDataFloat = new long double(value);
+		return;
+	}
+
 	this->internalType = JSTypes::Integer;
 	this->internalDataInt = new int32_t(value);
 }
diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index f259f9d..0d76b20 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -55,9 +55,15 @@ std::string JSON::stringify(const Property& data) {
 			//	shortest text that reads back as the same value
 			char textbuff[128];
 			const auto asDouble = static_cast<double>(value);
-			const auto textend = (asDouble == value
-				? std::to_chars(textbuff, textbuff + sizeof(textbuff), asDouble)
-				: std::to_chars(textbuff, textbuff + sizeof(textbuff), value)).ptr;
+			auto textend = std::to_chars(textbuff, textbuff + sizeof(textbuff), asDouble).ptr;
+
+			//	it's read as a long double first, so it can end up being rounded twice
+			long double readback = 0;
+			std::from_chars(textbuff, textend, readback);
+
+			if (asDouble != value || static_cast<double>(readback) != asDouble) {
+				textend = std::to_chars(textbuff, textbuff + sizeof(textbuff), value).ptr;
+			}
 
 			std::string temp(textbuff, textend);
 			if (temp.find_first_of(".e") == std::string::npos) temp.append(".0");
-- 
2.43.0


From 2573880ae9c646afc50916d961b293cbaec7d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 43/47] fix: keep user names without a password in URLs

---
 core/http/url.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index 768f485..41d9d77 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -53,8 +53,8 @@ void URL::parse(const std::string& href) {
 
 				auto credentails = addrString.substr(0, cursor);
 				const auto credSep = credentails.find(':');
+				this->username = credentails.substr(0, credSep);
 				if (credSep != std::string::npos) {
-					this->username = credentails.substr(0, credSep);
 					this->password = credentails.substr(credSep + 1);
 				}
 
@@ -120,8 +120,8 @@ std::string URL::href() const {
 		}
 
 		//	add http auth
-		if (this->username.size() && this->password.size()) {
-			temp += this->username + ":" + this->password + "@";
+		if (this->username.size() || this->password.size()) {
+			temp += this->username + (this->password.size() ? ":" + this->password : "") + "@";
 		}
 
 		//	add host name
-- 
2.43.0


From 9c099ee0fb072c177aa5bd78cfb652e99358d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 44/47] fix: don't let line breaks in event names and ids forge
 other events

---
 core/sse/writer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index 2d615cf..8b780a6 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -30,6 +30,17 @@ Writer::Writer(WriterInit init) :
 	this->m_transport.respond({ upgradeResponse, init.requestEvent.id });
 }
 
+/**
+ * A line break would end the field and let it's value inject other fields or even whole events
+*/
+static std::string singleLine(const std::string& value) {
+	auto result = value;
+	for (auto& c : result) {
+		if (c == '\r' || c == '\n') c = ' ';
+	}
+	return result;
+}
+
 void Writer::push(const EventMessage& event) {
 
 	if (!this->m_transport.isConnected()) {
@@ -39,11 +50,11 @@ void Writer::push(const EventMessage& event) {
 	std::vector<std::pair<std::string, std::string>> messageFields;
 
 	if (event.event.has_value()) {
-		messageFields.push_back({ "event", event.event.value() });
+		messageFields.push_back({ "event", singleLine(event.event.value()) });
 	}
 
 	if (event.id.has_value()) {
-		messageFields.push_back({ "id", event.id.value() });
+		messageFields.push_back({ "id", singleLine(event.id.value()) });
 	}
 
 	//	every line of the data needs it's own field
-- 
2.43.0


From 4c0248f49a8e801dd597dffeac942f9973d57518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 45/47] fix: refuse requests with control characters in the
 start line

---
 core/http/transport_v1.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index cf52aa4..1a15d18 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -163,6 +163,12 @@ bool TransportContextV1::awaitNext() {
 		throw ProtocolError("Invalid HTTP request", 400);
 	}
 
+	//	these could be used to fake line breaks wherever a url gets printed
+	const auto isControlChar = [](char c) { return static_cast<unsigned char>(c) < 0x20 || c == 0x7F; };
+	if (std::any_of(headerFields.at(0).begin(), headerFields.at(0).end(), isControlChar)) {
+		throw ProtocolError("Invalid HTTP request", 400);
+	}
+
 	auto& requestMethodString = headerStartLine.at(0);
 	auto& requestUrlString = headerStartLine.at(1);
 
-- 
2.43.0


From 892c0d67bc294bb7467d4434ab222ba9ca829f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 46/47] fix: keep file permissions when rewriting a kv storage
 file

---
 extra/kvstorage/driver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 305d23a..6e2f12a 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -147,6 +147,11 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		throw std::runtime_error("Failed to open db file for write: " + tempFilename);
 	}
 
+	//	the new file should be accessible to the same users as the one that it replaces
+	if (std::filesystem::exists(this->m_filename)) {
+		std::filesystem::permissions(tempFilename, std::filesystem::status(this->m_filename).permissions());
+	}
+
 	DBBasicHeader dbHeader;
 	memcpy(dbHeader.magic, this->magicstring, sizeof(dbHeader.magic));
 	dbHeader.version = Bits::storenormx(static_cast<uint16_t>(this->version));
-- 
2.43.0


From 93a97328e6291d24f46e9424cfb72a10a81653c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 47/47] fix: refuse a request with an empty content-length
 header instead of ignoring it

---
 core/http/transport_v1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 1a15d18..1e401fb 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -198,6 +198,11 @@ bool TransportContextV1::awaitNext() {
 
 		const auto headerValue = Strings::trim(headerline.substr(separator + 1));
 		if (!headerValue.size()) {
+
+			if (Strings::toLowerCase(headerKey) == "content-length") {
+				throw ProtocolError("Invalid content-length header", 400);
+			}
+
 			continue;
 		}
 
-- 
2.43.0

