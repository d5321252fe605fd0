From 57168b283f3f0dd31ebfd90ad3cd4140f78e548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 01/55] fix: rol() by zero bits shifted by the full width of
 the type (undefined behaviour)

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..552e344 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));
 }
 
 namespace details {
-- 
2.43.0


From 9c3406e36467244f4d879a2fdaabbdf0b4aec84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 02/55] fix: empty line of a single LF before a request was
 taken as an empty method

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..fd7625e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From 21a53014078fee3afd5cf2951b699ecba97946b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 03/55] fix: request line with blanks after the HTTP version
 was rejected or needed two newlines

---
 include/crab/http/request_parser.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index fd7625e..1610740 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -157,9 +157,11 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 	case STATUS_LINE_CR:
 		if (is_sp(input))
 			return STATUS_LINE_CR;
+		if (input == '\r')
+			return STATUS_LINE_LF;
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-		return STATUS_LINE_LF;
+		return FIRST_HEADER_LINE_START;
 	case STATUS_LINE_LF:
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-- 
2.43.0


From 473b9b448f2daf34fd8981da9e88f642e18df611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 04/55] fix: request parser required 'chunked' to be the first
 transfer coding instead of the last

---
 include/crab/http/request_parser.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 1610740..bb6c886 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -264,14 +264,14 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From 21d5c64ef0dea0afd06e82ac16fb27ee1225c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 05/55] fix: response parser required 'chunked' to be the first
 transfer coding instead of the last

---
 include/crab/http/response_parser.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..f9f3f65 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -217,14 +217,14 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From 54b155b59e1b533c9b0d18c7fc69814da7a30e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 06/55] fix: get_uri() returned an empty string and set_uri()
 kept the old query when there is no query string

---
 include/crab/http/types.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 2111b47..6692511 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -193,13 +193,14 @@ CRAB_INLINE void RequestHeader::set_uri(const std::string &uri) {
 	auto pos = uri.find('?');
 	if (pos == std::string::npos) {
 		path = uri;
+		query_string.clear();
 	} else {
 		path         = uri.substr(0, pos);
 		query_string = uri.substr(pos + 1);
 	}
 }
 
-CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? query_string : path + "?" + query_string; }
+CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? path : path + "?" + query_string; }
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-- 
2.43.0


From f0b826fa478d645dec2b7a1b33307f1d6aafab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 07/55] fix: response serialiser dropped the server field

---
 include/crab/http/types.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 6692511..66f3aa1 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -233,6 +233,8 @@ CRAB_INLINE std::string ResponseHeader::to_string() const {
 	   << (status_text.empty() ? status_to_string(status) : status_text) << "\r\n";
 	if (!date.empty())
 		ss << "date: " << date << "\r\n";
+	if (!server.empty())
+		ss << "server: " << server << "\r\n";
 	details::to_string_common(*this, ss);
 	if (!sec_websocket_accept.empty())
 		ss << "sec-websocket-accept: " << sec_websocket_accept << "\r\n";
-- 
2.43.0


From 20f6775b685b41e6600ad3b7cb00d27b22eccacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 08/55] fix: chunked body trailer line ended by a single LF was
 not recognised

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index bb6c886..ca29f62 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -451,6 +451,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From ddd22b96a82a447eb84a4ce17c390b5093918361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 09/55] fix: WebSocket continuation frames (opcode 0) were
 refused, so no fragmented message could be received

---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..da49f95 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // continuation frame
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From 36c1deb640698a4662015ca426a9c78169a9f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 10/55] fix: query parser lost pairs or swallowed separators
 after a malformed percent escape

---
 include/crab/http/query_parser.hxx | 44 ++++++++++--------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 0500109..2dc9156 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -87,32 +87,24 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			key_.push_back(input);
 		return KEY;
 	case KEY_PERCENT1: {
-		if (input == '=') {
-			key_.push_back('%');
-			return VALUE;
-		}
 		int digit1 = from_hex_digit(input);
-		if (digit1 < 0) {
+		if (digit1 < 0) {  // not an escape, '%' stands for itself, input keeps its usual meaning
 			key_.push_back('%');
-			key_.push_back(input);
-			return KEY;
+			state = KEY;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return KEY_PERCENT2;
 	}
 	case KEY_PERCENT2: {
-		if (input == '=') {
-			key_.push_back('%');
-			key_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
-			key_.push_back(input);
-		} else
-			key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = KEY;
+			return consume(input);
+		}
+		key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return KEY;
 	}
 	case VALUE:
@@ -128,32 +120,24 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			value_.push_back(input);
 		return VALUE;
 	case VALUE_PERCENT1: {
-		if (input == '&') {
-			value_.push_back('%');
-			return KEY;
-		}
 		int digit1 = from_hex_digit(input);
-		if (digit1 < 0) {
+		if (digit1 < 0) {  // not an escape, '%' stands for itself, input keeps its usual meaning
 			value_.push_back('%');
-			value_.push_back(input);
-			return VALUE;
+			state = VALUE;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return VALUE_PERCENT2;
 	}
 	case VALUE_PERCENT2: {
-		if (input == '=') {
-			value_.push_back('%');
-			value_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			value_.push_back(input);
-		} else
-			value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = VALUE;
+			return consume(input);
+		}
+		value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return VALUE;
 	}
 	default:
-- 
2.43.0


From 43675f78057ed987a4ce32d8023a376f4de0fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 11/55] fix: URI path separator after a malformed percent
 escape was swallowed, hiding dot segments

---
 include/crab/http/query_parser.hxx | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 2dc9156..f5722c3 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -290,32 +290,24 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			cur_path_.push_back(input);
 		return PATH;
 	case PATH_HEX1: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			return QUERY;
-		}
 		int digit1 = from_hex_digit(input);
-		if (digit1 < 0) {
+		if (digit1 < 0) {  // not an escape, '%' stands for itself, input keeps its usual meaning
 			cur_path_.push_back('%');
-			cur_path_.push_back(input);
-			return PATH;
+			state = PATH;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return PATH_HEX2;
 	}
 	case PATH_HEX2: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			cur_path_.push_back(percent1_hex_sym);
-			return QUERY;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			cur_path_.push_back('%');
 			cur_path_.push_back(percent1_hex_sym);
-			cur_path_.push_back(input);
-		} else
-			cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
+			state = PATH;
+			return consume(input);
+		}
+		cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
 		return PATH;
 	}
 	case QUERY:
-- 
2.43.0


From 83b4ed7adb062d1c42a24f91e25cda3341f741a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 12/55] fix: '..' and '.' as the last URI path segment were not
 removed

---
 include/crab/http/query_parser.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index f5722c3..dee6383 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -328,6 +328,9 @@ CRAB_INLINE URIParser::State URIParser::consume_end() {
 		state = PATH;
 	}
 
+	if (cur_path_ == string_view{".."} || cur_path_ == string_view{"."})
+		persist_path_component();  // leaves cur_path_ empty, so path ends with '/'
+
 	for (auto &&pc : path_components_)
 		uri.path.append('/' + pc);
 	uri.path.append('/' + cur_path_);
-- 
2.43.0


From 5aebe6246169c920aec8c85fc7560393fee30808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 13/55] fix: URI query directly after host or port was taken as
 part of the host or port

---
 include/crab/http/query_parser.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index dee6383..69333ef 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -261,6 +261,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		}
 		if (input == '/')
 			return PATH;
+		if (input == '?')
+			return QUERY;
 		if (input == ':')
 			return PORT;
 		uri.host.push_back(input);
@@ -277,6 +279,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 		}
 		if (input == '/')
 			return PATH;
+		if (input == '?')
+			return QUERY;
 		uri.port.push_back(input);
 		return PORT;
 	case PATH:
-- 
2.43.0


From 5bcbff7661f3d2a6e9350e20307c76305d1cbc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 14/55] fix: integer_cast from floating point let NaN and
 2^digits through (undefined conversion)

---
 include/crab/integer_cast.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crab/integer_cast.hpp b/include/crab/integer_cast.hpp
index dffc7ca..b113f5a 100644
--- a/include/crab/integer_cast.hpp
+++ b/include/crab/integer_cast.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <cctype>
+#include <cmath>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -184,9 +185,10 @@ inline T integer_cast_is_integral(const char *arg, std::false_type, std::false_t
 
 template<typename T, typename S>  // source floating point
 inline T integer_cast_is_integral(const S &arg, std::false_type, std::true_type) {
-	if (arg > std::numeric_limits<T>::max())
+	// max() may be rounded up to 2^digits when converted to S
+	if (arg > static_cast<S>(std::numeric_limits<T>::max()) || arg >= std::ldexp(static_cast<S>(1), std::numeric_limits<T>::digits))
 		throw_out_of_range<T>(arg);
-	if (arg < std::numeric_limits<T>::min())
+	if (!(arg >= static_cast<S>(std::numeric_limits<T>::min())))  // including NaN
 		throw_out_of_range<T>(arg);
 	return static_cast<T>(arg);
 }
-- 
2.43.0


From 8cfd712bd538314113baf1835fbc935a33431871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 15/55] fix: IMemoryStream::write_to lost bytes when the
 destination accepted only a part

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From 2e8ab8b596d5e1ce9be9744c00d9a95a8e535bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 16/55] fix: CombinedIStream::write_to did not count bytes
 written from the first stream

---
 include/crab/streams.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..3bd069f 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -295,13 +295,14 @@ public:
 	}
 	using IStream::read_some;
 	size_t write_to(OStream &out, size_t max_count) override {
+		size_t count = 0;
 		if (!a->empty()) {
-			size_t count = a->write_to(out, max_count);
+			count = a->write_to(out, max_count);
 			max_count -= count;
 			if (!a->empty())
 				return count;
 		}
-		return b->write_to(out, max_count);
+		return count + b->write_to(out, max_count);
 	}
 	using IFiniteStream::write_to;
 };
-- 
2.43.0


From 269e05cb22e6a106cd9a430ea6700f5ddd9681b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 17/55] fix: timers re-arming themselves with zero delay
 starved sockets, watchers, idles and other timers

---
 include/crab/network.hxx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 8047475..72e42e2 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -146,7 +146,8 @@ CRAB_INLINE void RunLoop::cancel() {
 }
 
 CRAB_INLINE void RunLoop::run() {
-	links.now = steady_clock::now();
+	links.now              = steady_clock::now();
+	size_t timers_in_a_row = 0;
 	while (!links.quit) {
 		if (!links.triggered_callables.empty()) {
 			Callable &callable = links.triggered_callables.front();
@@ -155,8 +156,14 @@ CRAB_INLINE void RunLoop::run() {
 			continue;
 		}
 		int timeout_ms = MAX_SLEEP_MS;
-		if (links.process_timer(timeout_ms))
-			continue;
+		if (links.process_timer(timeout_ms)) {
+			// links.now does not advance here, so timers which rearm themselves with zero delay are due again.
+			// They must not prevent sockets, watchers, idles and all other timers from running.
+			if (++timers_in_a_row < 256)
+				continue;
+			timeout_ms = 0;
+		}
+		timers_in_a_row = 0;
 		// Nothing triggered and no timers here
 		if (idle_handlers.empty()) {
 			step(timeout_ms);  // Just waiting
-- 
2.43.0


From 14d7ff70da7f1999ed42b60ed35f697ecd4c644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 18/55] fix: BufferedTCPSocket::connect/accept kept unsent
 data, shutdown state and shutdown timer of the previous connection

---
 include/crab/http/connection.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index ce6bf99..c513166 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -24,9 +24,18 @@ public:
 	void close(bool with_event = false);
 	bool is_open() const { return sock.is_open(); }
 
-	bool connect(const Address &address) { return sock.connect(address); }
-	bool connect_tls(const Address &address, const std::string &host) { return sock.connect_tls(address, host); }
-	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) { sock.accept(acceptor, accepted_addr); }
+	bool connect(const Address &address) {
+		close();
+		return sock.connect(address);
+	}
+	bool connect_tls(const Address &address, const std::string &host) {
+		close();
+		return sock.connect_tls(address, host);
+	}
+	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) {
+		close();
+		sock.accept(acceptor, accepted_addr);
+	}
 
 	size_t read_some(uint8_t *val, size_t count) override;
 	using IStream::read_some;  // Version for other char types
-- 
2.43.0


From c93a91dbd46a71642606bcf59dbdd5b550df3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:41 +0000
Subject: [PATCH 19/55] fix: Watcher::call does not touch the watcher or its
 RunLoop after the handler could have destroyed them

---
 include/crab/network.hpp |  3 +--
 include/crab/network.hxx | 12 +++++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/crab/network.hpp b/include/crab/network.hpp
index d2b39ea..93e9f45 100644
--- a/include/crab/network.hpp
+++ b/include/crab/network.hpp
@@ -442,11 +442,10 @@ struct RunLoopLinks : private Nocopy {  // Common structure when implementing ov
 
 	bool process_timer(int &timeout_ms);
 
-	// protected queue below can be accessed in call_watcher from other threads
+	// protected queue below can be accessed in Watcher::call from other threads
 	std::mutex mutex;
 	IntrusiveList<Watcher, &Watcher::fired_objects_node> fired_objects;
 
-	void call_watcher(Watcher *watcher);  // from other threads
 	void cancel_called_watcher(Watcher *watcher);
 	void trigger_called_watchers();
 };
diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 72e42e2..ad452e5 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -120,11 +120,6 @@ CRAB_INLINE bool RunLoopLinks::process_timer(int &timeout_ms) {
 	return false;
 }
 
-CRAB_INLINE void RunLoopLinks::call_watcher(Watcher *watcher) {
-	std::unique_lock<std::mutex> lock(mutex);
-	fired_objects.push_back(*watcher);
-}
-
 CRAB_INLINE void RunLoopLinks::cancel_called_watcher(Watcher *watcher) {
 	std::unique_lock<std::mutex> lock(mutex);
 	watcher->fired_objects_node.unlink();
@@ -285,8 +280,11 @@ CRAB_INLINE Watcher::Watcher(Handler &&a_handler) : loop(RunLoop::current()), a_
 CRAB_INLINE Watcher::~Watcher() { cancel(); }
 
 CRAB_INLINE void Watcher::call() {
-	loop->links.call_watcher(this);
-	loop->wakeup();
+	RunLoop *a_loop = loop;
+	// As soon as lock is released, handler can run and destroy this watcher (and even RunLoop)
+	std::unique_lock<std::mutex> lock(a_loop->links.mutex);
+	a_loop->links.fired_objects.push_back(*this);
+	a_loop->wakeup();
 }
 
 CRAB_INLINE void Watcher::cancel() {
-- 
2.43.0


From da6fb62c3dc3906187fcae7444df7a77c223ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:16 +0000
Subject: [PATCH 20/55] fix: reading datagrams continues after asynchronous
 error (for example ICMP port unreachable)

---
 include/crab/network_posix.hxx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index 0e3aa01..be8c138 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -143,12 +143,20 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 	// (while correct behaviour is reading, truncating to 0, returning EMSGSIZE).
 	// We protect clients semantic by reading into our own small buffer
 	uint8_t workaround_buffer[1];  // Uninitialized
-	ssize_t result = recvfrom(fd.get_value(),
-	    count ? data : workaround_buffer,
-	    count ? count : sizeof(workaround_buffer),
-	    details::CRAB_MSG_NOSIGNAL,
-	    in_addr.impl_get_sockaddr(),
-	    &in_len);
+	ssize_t result = -1;
+	// Asynchronous error (for example ECONNREFUSED after ICMP report) is returned once, instead of datagrams already in
+	// buffer. We must continue reading, otherwise clients will wait for epoll event, which already happened.
+	for (int attempt = 0; attempt != 4; ++attempt) {
+		in_len = sizeof(sockaddr_storage);
+		result = recvfrom(fd.get_value(),
+		    count ? data : workaround_buffer,
+		    count ? count : sizeof(workaround_buffer),
+		    details::CRAB_MSG_NOSIGNAL,
+		    in_addr.impl_get_sockaddr(),
+		    &in_len);
+		if (result >= 0 || errno == EAGAIN || errno == EWOULDBLOCK || errno == EMSGSIZE)
+			break;
+	}
 	if (result > static_cast<ssize_t>(count))  // Can only happen when reading into workaround_buffer
 		result = static_cast<ssize_t>(count);
 	RunLoop::current()->stats.push_record("R(recvfrom)", fd.get_value(), int(result));
-- 
2.43.0


From c2b2d222f805be0af5c91ddae26f208dc4dbed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 21/55] fix: Address::parse(ip_port) accepts IPv6 addresses as
 printed by to_string(), and returns false instead of throwing on a bad port

---
 include/crab/network.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index ad452e5..b885c75 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -41,11 +41,13 @@ CRAB_INLINE Address::Address(const std::string &ip_port) {
 }
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip_port) {
-	size_t pos = ip_port.find(':');
+	size_t pos = ip_port.rfind(':');  // IPv6 address contains ':'
 	if (pos == std::string::npos)
 		return false;
-	auto port = integer_cast<uint16_t>(ip_port.substr(pos + 1));
-	return parse(address, ip_port.substr(0, pos), port);
+	auto port = details::integer_parse_impl<uint16_t>(ip_port.data() + pos + 1, ip_port.data() + ip_port.size());
+	if (port.second)
+		return false;
+	return parse(address, ip_port.substr(0, pos), port.first);
 }
 
 CRAB_INLINE std::ostream &operator<<(std::ostream &os, const Address &msg) { return os << msg.get_address() << ":" << msg.get_port(); }
-- 
2.43.0


From a2e4326d3d233becf88ff38299f9433f51ea89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 22/55] fix: Address::parse refuses text with embedded zero
 byte instead of ignoring everything after it

---
 include/crab/network_posix_win.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/network_posix_win.hxx b/include/crab/network_posix_win.hxx
index 6b6056b..f613965 100644
--- a/include/crab/network_posix_win.hxx
+++ b/include/crab/network_posix_win.hxx
@@ -11,6 +11,8 @@
 namespace crab {
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip, uint16_t port) {
+	if (ip.find('\0') != std::string::npos)  // inet_pton would stop there
+		return false;
 	Address tmp;
 	auto ap6 = reinterpret_cast<sockaddr_in6 *>(tmp.impl_get_sockaddr());
 	if (inet_pton(AF_INET6, ip.c_str(), &ap6->sin6_addr) == 1) {
-- 
2.43.0


From d69411cdf68f1340fc92fc21c9bf3aa89ce41451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 23/55] fix: ServerConnection continues with requests/messages
 which are already in read_buffer after response is finished outside of socket
 handler

---
 include/crab/http/connection.hpp |  4 ++++
 include/crab/http/connection.hxx | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index c513166..30b300b 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -222,11 +222,15 @@ protected:
 	// Server-side ping required for some NATs to keep port open
 	// TCP keep-alive is set by most browsers, but surprisingly it is not enough.
 	// We reset this timer on write() only
+	Timer resume_timer;
+	// When response (or streaming of message) is finished, next request (message) can be already in read_buffer,
+	// then no socket event will happen
 
 	optional<uint64_t> remaining_body_content_length;  // empty for chunked
 
 	void sock_handler();
 	void on_wm_ping_timer();
+	void on_resume_timer();
 	bool advance_state();
 
 	Handler rwd_handler;
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..499f924 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -425,6 +425,7 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     : read_buffer(8192)
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
+    , resume_timer([&]() { on_resume_timer(); })
     , rwd_handler(std::move(rwd_handler))
     , sock([this]() { sock_handler(); }) {}
 
@@ -438,6 +439,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	resume_timer.cancel();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
@@ -494,6 +496,7 @@ CRAB_INLINE void ServerConnection::web_socket_upgrade() {
 	wm_body_parser   = WebMessageBodyParser{};
 	state            = WEB_MESSAGE_HEADER;
 	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);  // Always server-side
+	resume_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::write(Response &&resp) {
@@ -592,6 +595,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			resume_timer.once(0);
 		}
 		return;
 	}
@@ -628,6 +632,7 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			resume_timer.once(0);
 		}
 		return;
 	}
@@ -649,6 +654,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		if (bo == BufferOptions::WRITE)
 			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
 		writing_web_message_body = false;
+		resume_timer.once(0);
 		return;
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
@@ -660,6 +666,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	}
 	request_parser = RequestParser{};
 	state          = REQUEST_HEADER;
+	resume_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::sock_handler() {
@@ -674,10 +681,16 @@ CRAB_INLINE void ServerConnection::sock_handler() {
 		// call read_next, which will call advance_state, and so on
 		return;
 	}
-	if (advance_state())
+	// Message could become ready while body of another message was being written
+	if (advance_state() || state == WEB_MESSAGE_READY)
 		rwd_handler();
 }
 
+CRAB_INLINE void ServerConnection::on_resume_timer() {
+	if (is_open() && !is_writing_body())
+		sock_handler();
+}
+
 CRAB_INLINE void ServerConnection::on_wm_ping_timer() {
 	if (sock.get_total_buffer_size() != 0)
 		sock.write(std::string{});  // Flushing buffer is enough
-- 
2.43.0


From 1801488be831e74319f7a8d251e448e761c329df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 24/55] fix: server does not throw out of RunLoop when handler
 throws ErrorAuthorization

---
 include/crab/http/server.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..e340ff5 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -164,10 +164,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 		if (r_handler)
 			r_handler(who, std::move(request));
 	} catch (const ErrorAuthorization &ex) {
-		Response response;
-		response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
-		response.header.status = 401;
-		who->write(std::move(response));
+		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
+			Response response;
+			response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
+			response.header.status = 401;
+			response.set_body(std::string{});
+			who->write(std::move(response));
+		}
 		return;
 	} catch (const std::exception &ex) {
 		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
-- 
2.43.0


From f559d005ac1dc7b4354e2ab0d94b8d344a1813f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 25/55] fix: response stream with content_length 0 is finished
 even if stream handler does not write anything

---
 include/crab/http/server.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index e340ff5..9719b7b 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -80,6 +80,8 @@ CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&
 	rwd_handler   = std::move(cb);
 	body_position = 0;
 	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	if (state == RESPONSE_BODY && remaining_body_content_length && *remaining_body_content_length == 0)
+		write(std::string{});  // Nothing to write, so handler had no reason to call write
 }
 
 CRAB_INLINE void Client::start_write_stream(WebMessageOpcode opcode, Handler &&scb) {
-- 
2.43.0


From ca6e51888d5c974c481e117aa25ef6755cc0a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 26/55] fix: stream handler is not destroyed while it is
 running, when it writes the last part of the body

---
 include/crab/http/server.hpp |  2 ++
 include/crab/http/server.hxx | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/server.hpp b/include/crab/http/server.hpp
index 31a6491..bd9a858 100644
--- a/include/crab/http/server.hpp
+++ b/include/crab/http/server.hpp
@@ -77,6 +77,8 @@ private:
 	Handler d_handler;
 	Handler rwd_handler;
 
+	void call_rwd_handler();
+
 	uint64_t body_position      = 0;
 	bool web_message_close_sent = false;
 	friend class Server;
diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 9719b7b..0752bca 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -58,6 +58,17 @@ CRAB_INLINE void Client::write_last_chunk(BufferOptions bo) {
 	rwd_handler = nullptr;
 }
 
+CRAB_INLINE void Client::call_rwd_handler() {
+	// write() and write_last_chunk() reset rwd_handler, so we must not run it in place
+	Handler handler = std::move(rwd_handler);
+	rwd_handler     = nullptr;
+	scope_exit restore([&] {
+		if (!rwd_handler && is_writing_body())
+			rwd_handler = std::move(handler);
+	});
+	handler();
+}
+
 CRAB_INLINE void Client::web_socket_upgrade(WS_handler &&cb) {
 	ServerConnection::web_socket_upgrade();
 	d_handler              = nullptr;
@@ -79,7 +90,7 @@ CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&
 	d_handler     = nullptr;
 	rwd_handler   = std::move(cb);
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 	if (state == RESPONSE_BODY && remaining_body_content_length && *remaining_body_content_length == 0)
 		write(std::string{});  // Nothing to write, so handler had no reason to call write
 }
@@ -88,7 +99,7 @@ CRAB_INLINE void Client::start_write_stream(WebMessageOpcode opcode, Handler &&s
 	ServerConnection::write(opcode);
 	rwd_handler   = std::move(scb);
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
 CRAB_INLINE Server::Server(const Address &address, const Settings &settings)
@@ -124,7 +135,7 @@ CRAB_INLINE void Server::on_client_handler(std::list<Client>::iterator it) {
 	WebMessage message;
 	Request request;
 	if (who->rwd_handler)
-		who->rwd_handler();
+		who->call_rwd_handler();
 	while (true) {
 		if (who->read_next(message)) {
 			on_client_handle_message(who, std::move(message));
-- 
2.43.0


From 3f4f6b29755213baf7fbbd764bd281b7ec0ec787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:30 +0000
Subject: [PATCH 27/55] fix: Client::write(std::string &&) counts written bytes
 in body_position

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 0752bca..6f02511 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const size_t count = ss.size();
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From 42dbdc855f0dcc0ac2452fbee7aa166460e708b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:10 +0000
Subject: [PATCH 28/55] fix: fix: ClientRequestSimple does not send next
 request into connection that server is closing after response without
 keep-alive

---
 include/crab/http/client_request.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/client_request.hxx b/include/crab/http/client_request.hxx
index 094235f..a261b69 100644
--- a/include/crab/http/client_request.hxx
+++ b/include/crab/http/client_request.hxx
@@ -81,7 +81,10 @@ CRAB_INLINE void ClientRequestSimple::on_connection() {
 	if (!requesting)
 		return;  // Should not be possible
 	requesting = false;
-	timeout_timer.once(keep_connection_timeout_sec);
+	if (response.header.keep_alive)
+		timeout_timer.once(keep_connection_timeout_sec);
+	else
+		connection.close();  // Server will not answer next request on this connection
 	r_handler(std::move(response));
 }
 
-- 
2.43.0


From fecd591678fd9a1284253904bfb1a693a2b08e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:06 +0000
Subject: [PATCH 29/55] fix: messages received just before end of stream are
 not lost when something is written in response to previous ones

---
 include/crab/http/connection.hxx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 499f924..811d4ca 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -317,8 +317,13 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 		return false;
 	try {
 		while (true) {
-			if (read_buffer.empty() && read_buffer.read_from(sock) == 0)
-				return false;
+			if (read_buffer.empty()) {
+				// Single read, because the next one can find end of stream and close socket
+				// while we still have to process (and probably respond to) what we have just read
+				read_buffer.did_write(sock.read_some(read_buffer.write_ptr(), read_buffer.write_count()));
+				if (read_buffer.empty())
+					return false;
+			}
 			switch (state) {
 			case RESPONSE_HEADER:
 				response_parser.parse(read_buffer);
@@ -705,8 +710,13 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 		return false;
 	try {
 		while (true) {
-			if (read_buffer.empty() && read_buffer.read_from(sock) == 0)
-				return false;
+			if (read_buffer.empty()) {
+				// Single read, because the next one can find end of stream and close socket
+				// while we still have to process (and probably respond to) what we have just read
+				read_buffer.did_write(sock.read_some(read_buffer.write_ptr(), read_buffer.write_count()));
+				if (read_buffer.empty())
+					return false;
+			}
 			switch (state) {
 			case REQUEST_HEADER:
 				request_parser.parse(read_buffer);
-- 
2.43.0


From 8dd6a4501aa5502a6ff0b5a5d691792a1d16838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:19 +0000
Subject: [PATCH 30/55] fix: part of fragmented message of closed connection
 does not leak into the next connection of the same object

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 811d4ca..e8893a7 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -169,6 +169,7 @@ CRAB_INLINE bool ClientConnection::connect(const Address &address) {
 CRAB_INLINE void ClientConnection::close() {
 	state = RESOLVING_HOST;
 	read_buffer.clear();
+	web_message.reset();
 	dns.cancel();
 	waiting_request.reset();
 	sock.close();
@@ -443,6 +444,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
+	web_message.reset();
 	wm_ping_timer.cancel();
 	resume_timer.cancel();
 	sock.close();
-- 
2.43.0


From 452df9b99acc38635fe47003f574012d3270da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:19 +0000
Subject: [PATCH 31/55] fix: messages received while output was buffered with
 BUFFER_ONLY are processed after flush

---
 include/crab/http/connection.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index e8893a7..95e9001 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -551,6 +551,7 @@ CRAB_INLINE void ServerConnection::write(WebMessage &&message, BufferOptions bo)
 		if (message.body.size() > 125)
 			message.body.resize(125);
 	}
+	const bool was_buffered = sock.get_total_buffer_size() != 0;
 	WebMessageHeaderSaver header{true, static_cast<int>(message.opcode), message.body.size(), {}};
 	sock.buffer(header.data(), header.size());
 	sock.write(std::move(message.body), bo);
@@ -562,6 +563,8 @@ CRAB_INLINE void ServerConnection::write(WebMessage &&message, BufferOptions bo)
 	}
 	if (bo == BufferOptions::WRITE)
 		wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+	if (was_buffered && sock.get_total_buffer_size() == 0)
+		resume_timer.once(0);  // We do not process new messages while there is data waiting to be sent
 }
 
 CRAB_INLINE void ServerConnection::write(WebMessageOpcode opcode) {
@@ -699,9 +702,10 @@ CRAB_INLINE void ServerConnection::on_resume_timer() {
 }
 
 CRAB_INLINE void ServerConnection::on_wm_ping_timer() {
-	if (sock.get_total_buffer_size() != 0)
+	if (sock.get_total_buffer_size() != 0) {
 		sock.write(std::string{});  // Flushing buffer is enough
-	else
+		resume_timer.once(0);       // We do not process new messages while there is data waiting to be sent
+	} else
 		write(WebMessage{WebMessageOpcode::PING, std::string{}});
 	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
 }
-- 
2.43.0


From a50e6190c2ff95ce7db9864f904656c211efc530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 32/55] fix: WebSocket connection is closed when client does
 not mask frame or server masks frame

---
 include/crab/http/connection.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 95e9001..454b758 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -360,6 +360,8 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				wm_header_parser.parse(read_buffer);
 				if (!wm_header_parser.is_good())
 					continue;
+				if (wm_header_parser.masking_key)
+					throw std::runtime_error{"Server must not mask frames"};  // RFC6455 5.1
 				wm_body_parser = WebMessageBodyParser{wm_header_parser.payload_len, wm_header_parser.masking_key};
 				state          = WEB_MESSAGE_BODY;
 				// Fall through (to correctly handle zero-length body). Next line is understood by GCC
@@ -743,6 +745,8 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 				wm_header_parser.parse(read_buffer);
 				if (!wm_header_parser.is_good())
 					continue;
+				if (!wm_header_parser.masking_key)
+					throw std::runtime_error{"Client must mask frames"};  // RFC6455 5.1
 				wm_body_parser = WebMessageBodyParser{wm_header_parser.payload_len, wm_header_parser.masking_key};
 				state          = WEB_MESSAGE_BODY;
 				// Fall through (to correctly handle zero-length body). Next line is understood by GCC
-- 
2.43.0


From 27644e99e40b8d57466870bf1e4b148ec5defe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 33/55] fix: WebSocket frame with length that is not in the
 shortest form or does not fit 63 bits is refused

---
 include/crab/http/web_message_parser.hpp | 1 +
 include/crab/http/web_message_parser.hxx | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index da49f95..f10be7b 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -63,6 +63,7 @@ private:
 	enum State { MESSAGE_BYTE_0, MESSAGE_BYTE_1, MESSAGE_LENGTH, MASKING_KEY, GOOD } state = MESSAGE_BYTE_0;
 
 	size_t remaining_field_bytes = 0;
+	uint64_t min_payload_len     = 0;
 	State consume(uint8_t input);
 };
 
diff --git a/include/crab/http/web_message_parser.hxx b/include/crab/http/web_message_parser.hxx
index 7e99614..315d150 100644
--- a/include/crab/http/web_message_parser.hxx
+++ b/include/crab/http/web_message_parser.hxx
@@ -55,11 +55,13 @@ CRAB_INLINE WebMessageHeaderParser::State WebMessageHeaderParser::consume(uint8_
 			throw std::runtime_error{"Control frame must not be fragmented"};
 		if (payload_len == 126) {
 			payload_len           = 0;
+			min_payload_len       = 126;
 			remaining_field_bytes = 2;
 			return MESSAGE_LENGTH;
 		}
 		if (payload_len == 127) {
 			payload_len           = 0;
+			min_payload_len       = 65536;
 			remaining_field_bytes = 8;
 			return MESSAGE_LENGTH;
 		}
@@ -73,6 +75,8 @@ CRAB_INLINE WebMessageHeaderParser::State WebMessageHeaderParser::consume(uint8_
 		remaining_field_bytes -= 1;
 		if (remaining_field_bytes != 0)
 			return MESSAGE_LENGTH;
+		if (payload_len < min_payload_len || (payload_len >> 63U) != 0)
+			throw std::runtime_error{"Invalid extended payload_len"};  // RFC6455 5.2
 		if (masking_key) {
 			remaining_field_bytes = 4;
 			return MASKING_KEY;
-- 
2.43.0


From 3a17e00f4c83e87324f9e74f231f478c807c63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 34/55] fix: client closes connection when server sends data
 nobody asked for (it was taken for the next response, and end of stream
 behind it was never noticed)

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 454b758..f591f7b 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -419,6 +419,8 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				}
 				state = WEB_MESSAGE_READY;
 				return true;
+			case WAITING_WRITE_REQUEST:
+				throw std::runtime_error{"Server sent data without request"};
 			default:  // waiting write, closing, etc
 				return false;
 			}
-- 
2.43.0


From 076d3b22eb421e83322e2d44801de14ecf1c47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:34 +0000
Subject: [PATCH 35/55] fix: WebSocket handler that throws on CLOSE is not told
 of the end of connection again

---
 include/crab/http/server.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 6f02511..0e019d0 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -199,17 +199,17 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 }
 
 CRAB_INLINE void Server::on_client_handle_message(Client *who, WebMessage &&message) {
+	const bool is_close = message.is_close();
 	try {
-		auto opcode = message.opcode;
 		if (who->ws_handler)
 			who->ws_handler(std::move(message));
-		if (opcode == WebMessageOpcode::CLOSE)
-			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 	} catch (const std::exception &ex) {
 		std::cout << "HTTP socket request leads to throw/catch, what=" << ex.what() << std::endl;
 		who->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR});
 		// TODO - hope we do not leak security messages there
 	}
+	if (is_close)
+		who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 }
 
 }}  // namespace crab::http
-- 
2.43.0


From dcb619c6ab23ef41503bb1e2a706aebaee5ff0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:34 +0000
Subject: [PATCH 36/55] fix: exception from WebSocket handler told of
 disconnect is handled as for any other message, instead of leaving the run
 loop

---
 include/crab/http/server.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 0e019d0..64aa935 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -164,8 +164,9 @@ CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it)
 	if (who->rwd_handler)
 		who->rwd_handler();
 	if (who->ws_handler)
-		who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
-		    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
+		on_client_handle_message(who,
+		    WebMessage{WebMessageOpcode::CLOSE, {},
+		        who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
 	clients.erase(it);
 	accept_all();  // In case we were over limit
 }
-- 
2.43.0


From b504dadcb78171636363891d4b5cd643a365b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:49 +0000
Subject: [PATCH 37/55] fix: single-digit HTTP major version above 1 was
 accepted

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index ca29f62..2ddaf8c 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index f9f3f65..d4c137b 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From 7382baf38970bcb995cf2722a1da6ae39a01eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 38/55] fix: URI with an IPv6 literal as host was split at the
 first ':' inside the brackets

---
 include/crab/http/query_parser.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 69333ef..4ba32fc 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -263,8 +263,8 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			return PATH;
 		if (input == '?')
 			return QUERY;
-		if (input == ':')
-			return PORT;
+		if (input == ':' && (uri.host.empty() || uri.host.front() != '[' || uri.host.back() == ']'))
+			return PORT;  // ':' inside of brackets is a part of IPv6 literal
 		uri.host.push_back(input);
 		return HOST;
 	case PORT:
-- 
2.43.0


From 1fc549a81b455abc78866df893ee3cb05b0de3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:28 +0000
Subject: [PATCH 39/55] fix: answer of DNSResolver changed under its handler
 when the handler had started another resolution

---
 include/crab/network.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index b885c75..40a0519 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -371,7 +371,9 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
 
 CRAB_INLINE void DNSResolver::on_handler() {
 	resolving = false;
-	dns_handler(names);
+	// Handler can start next resolution, which must not overwrite the answer while handler is using it
+	const std::vector<Address> answer = std::move(names);
+	dns_handler(answer);
 }
 
 CRAB_INLINE void DNSResolver::resolve(const std::string &host_name, uint16_t port, bool ipv4, bool ipv6) {
-- 
2.43.0


From fbb34341c339fd7de86ba9411b97e7742d8b0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 40/55] fix: TCPSocket::write_shutdown did nothing when the
 send buffer was full, so the peer never received the end of stream

---
 include/crab/network_posix.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index be8c138..fc2a7e6 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -405,7 +405,10 @@ CRAB_INLINE void TCPSocket::close(bool with_event) {
 }
 
 CRAB_INLINE void TCPSocket::write_shutdown() {
-	if (!fd.is_valid() || !rwd_handler.can_write)
+	if (!fd.is_valid())
+		return;
+	// If not writable, we are either still connecting (shutdown would abort that) or send buffer is full
+	if (!rwd_handler.can_write && remote_address().impl_get_sockaddr_length() == 0)
 		return;
 	::shutdown(fd.get_value(), SHUT_WR);
 }
-- 
2.43.0


From a368d8741a51933dd042dfa17925efda3a7fea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:31 +0000
Subject: [PATCH 41/55] fix: Random::double_value() no longer rounds up to 1.0

---
 include/crab/util.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/util.hxx b/include/crab/util.hxx
index 9b45a40..845b6d8 100644
--- a/include/crab/util.hxx
+++ b/include/crab/util.hxx
@@ -176,7 +176,8 @@ CRAB_INLINE std::string Random::printable_string(size_t size) {
 
 CRAB_INLINE double Random::double_value() {
 	auto hipart = uint64_t(pcg32_random_r()) << 31U;  // leave top bit zero for faster ldexp() on some platforms
-	return ldexp(double(hipart ^ pcg32_random_r()), -63);
+	// 53 top bits fit into double exactly, otherwise conversion would round largest values up to 1.0
+	return ldexp(double((hipart ^ pcg32_random_r()) & ~uint64_t(0x3FF)), -63);
 }
 
 CRAB_INLINE void memzero(void *data, size_t len) {
-- 
2.43.0


From 2433c25e844893f21e8bab530bd7c8abc64f51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:51 +0000
Subject: [PATCH 42/55] fix: Content-Length with a '+' sign is not a number

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 2ddaf8c..713d700 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -256,6 +256,8 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (!header.value.empty() && header.value.front() == '+')  // accepted by integer_cast
+			throw std::runtime_error{"Content length is not a number"};
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index d4c137b..c8f75f9 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -209,6 +209,8 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (!header.value.empty() && header.value.front() == '+')  // accepted by integer_cast
+			throw std::runtime_error{"Content length is not a number"};
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
-- 
2.43.0


From ad2ac2b8dc410815ed93572a076a9f1a4a669ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:39 +0000
Subject: [PATCH 43/55] fix: request with a transfer coding but without chunked
 was read as one with no body

---
 include/crab/http/request_parser.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 713d700..b6adb33 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -187,6 +187,9 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		process_ready_header();
 		header.name.clear();
 		header.value.clear();
+		// https://www.rfc-editor.org/rfc/rfc9112#section-6.3 length of such request cannot be determined
+		if ((input == '\r' || input == '\n') && !req.transfer_encodings.empty() && !req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		if (input == '\r')
 			return FINAL_LF;
 		if (input == '\n')
-- 
2.43.0


From 4c8b9b2f38c3e5b9009cd114990c1cc3210e1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:11 +0000
Subject: [PATCH 44/55] fix: Signal::set_handler kept the new handler but
 stopped reading the signals, so later ones were not reported

---
 include/crab/network.hpp       | 7 +++++++
 include/crab/network_posix.hxx | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hpp b/include/crab/network.hpp
index 93e9f45..d3663b0 100644
--- a/include/crab/network.hpp
+++ b/include/crab/network.hpp
@@ -123,13 +123,20 @@ private:
 class Signal {
 public:
 	explicit Signal(Handler &&cb, std::vector<int> signals = std::vector<int>{});
+#if CRAB_IMPL_EPOLL
+	void set_handler(Handler &&cb) { u_handler = std::move(cb); }
+#else
 	void set_handler(Handler &&cb) { a_handler.handler = std::move(cb); }
+#endif
 	~Signal();
 
 	static bool running_under_debugger();
 	// Sometimes signals interfere with debugger. Use this fun to conditionally create Signal
 private:
 	Callable a_handler;
+#if CRAB_IMPL_EPOLL
+	Handler u_handler;  // a_handler must read from fd, otherwise next signals will not be reported
+#endif
 #if CRAB_IMPL_KEVENT || CRAB_IMPL_EPOLL
 	std::vector<int> signals;
 	details::FileDescriptor fd;
diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index fc2a7e6..a4b8624 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -316,7 +316,7 @@ CRAB_INLINE void RunLoop::wakeup() {
 }
 
 CRAB_INLINE Signal::Signal(Handler &&cb, std::vector<int> ss)
-    : a_handler([&, cb]() {  // cb = std::move(cb) is C++14, we will keep C++11 compatibility for some time
+    : a_handler([this]() {
 	    signalfd_siginfo info{};
 	    while (true) {
 		    // Several signals can be merged, we read all of them
@@ -325,8 +325,9 @@ CRAB_INLINE Signal::Signal(Handler &&cb, std::vector<int> ss)
 			    break;
 		    // Condition (bytes >= sizeof(info) && info.ssi_pid == 0) is true if called from terminal
 	    }
-	    cb();
+	    u_handler();
     })
+    , u_handler(std::move(cb))
     , signals(std::move(ss)) {
 	if (signals.empty()) {
 		signals.push_back(SIGINT);
-- 
2.43.0


From 8ae5040e5f5819eb2a3a610702c842056285fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:58 +0000
Subject: [PATCH 45/55] fix: string_view of pointer and size was one byte
 shorter than asked

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index 552e344..5a0a950 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -82,7 +82,7 @@ class string_view {
 public:
 	string_view() = default;
 	explicit string_view(const char *value) : d(value), s(std::strlen(value)) {}
-	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size - 1) {}
+	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size) {}
 
 	int compare(const char *value, size_t size) const { return (s == size) ? std::memcmp(d, value, s) : s > size ? 1 : -1; }
 	int compare(const std::string &b) const { return compare(b.data(), b.size()); }
-- 
2.43.0


From 584c293f8999ccf5977805ac7a752d001820717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:58 +0000
Subject: [PATCH 46/55] fix: optional::emplace takes the constructor that
 std::optional takes, not the one for an initializer list

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index 5a0a950..0af3561 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -62,7 +62,7 @@ public:
 	}
 	template<class... Args>
 	T &emplace(Args &&... args) {
-		impl  = T{std::forward<Args>(args)...};
+		impl  = T(std::forward<Args>(args)...);
 		valid = true;
 		return impl;
 	}
-- 
2.43.0


From 6e11d6a26850ec07fc103ec169699639711de723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:25 +0000
Subject: [PATCH 47/55] fix: path of a request is percent-encoded on send, as
 types.hpp says, so that a blank, '?', '#' or '%' in it does not break the
 request line

---
 include/crab/http/types.hxx | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 66f3aa1..9f269d4 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -47,6 +47,23 @@ CRAB_INLINE void to_string_common(const http::RequestResponseHeader &req, std::s
 		ss << h.name << ": " << h.value << "\r\n";
 }
 
+// Only what cannot stand in a path literally, so "*" and characters like ':' or '=' are sent as they are
+CRAB_INLINE std::string encode_request_path(const std::string &path) {
+	static const char hexdigits[] = "0123456789abcdef";
+	std::string result;
+	for (auto c : path) {
+		uint8_t ch = c;
+		if (ch > 32 && ch < 127 && c != '#' && c != '?' && c != '%') {
+			result += c;
+			continue;
+		}
+		result += '%';
+		result += hexdigits[(ch >> 4) & 0xf];
+		result += hexdigits[ch & 0xf];
+	}
+	return result;
+}
+
 CRAB_INLINE std::string simple_response(int status, const char *pf, const std::string *body, const char *sf) {
 	std::stringstream ss;
 	ss << pf;
@@ -204,7 +221,7 @@ CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.emp
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-	ss << method << " " << path;  // TODO - uri-encode path
+	ss << method << " " << details::encode_request_path(path);
 	if (!query_string.empty())
 		ss << "?" << query_string;  // query_string must be already encoded
 	ss << " HTTP/" << http_version_major << "." << http_version_minor << "\r\n";
-- 
2.43.0


From 11c28fe30411f7dacead79787073bff98154352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 48/55] fix: set_uri() decodes the path and get_uri() encodes
 it, so that an URI with escapes is sent as it was given

---
 include/crab/http/types.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 9f269d4..4a6fdda 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -10,6 +10,7 @@
 #include <sstream>
 #include "../crypto/base64.hpp"
 #include "../crypto/sha1.hpp"
+#include "query_parser.hpp"
 #include "types.hpp"
 
 namespace crab {
@@ -209,15 +210,18 @@ CRAB_INLINE bool RequestHeader::is_websocket_upgrade() const {
 CRAB_INLINE void RequestHeader::set_uri(const std::string &uri) {
 	auto pos = uri.find('?');
 	if (pos == std::string::npos) {
-		path = uri;
+		path = url_decode(uri);
 		query_string.clear();
 	} else {
-		path         = uri.substr(0, pos);
+		path         = url_decode(uri.substr(0, pos));
 		query_string = uri.substr(pos + 1);
 	}
 }
 
-CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? path : path + "?" + query_string; }
+CRAB_INLINE std::string RequestHeader::get_uri() const {
+	auto encoded_path = details::encode_request_path(path);
+	return query_string.empty() ? encoded_path : encoded_path + "?" + query_string;
+}
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-- 
2.43.0


From ff362d8734997a501d6bf1fc1d0230ad9b28e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 49/55] fix: TLS build did not compile: TCPSocketTLS::close()
 takes with_event, as TCPSocket does

---
 include/crab/http/crab_tls.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/crab_tls.hpp b/include/crab/http/crab_tls.hpp
index 6b96762..222343f 100644
--- a/include/crab/http/crab_tls.hpp
+++ b/include/crab/http/crab_tls.hpp
@@ -77,8 +77,8 @@ public:
 	void set_handler(Handler &&cb) { rwd_handler = std::move(cb); }
 
 	~TCPSocketTLS() override { close(); }
-	void close() {
-		sock.close();
+	void close(bool with_event = false) {
+		sock.close(with_event);
 		tls_engine.reset();
 	}
 	bool is_open() const { return sock.is_open(); }
-- 
2.43.0


From de9a1bf9ee746f43a9325cf4cca4757eb4f9292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 50/55] fix: TLS client verified neither the certificate
 (SSL_VERIFY_PEER was set after the connection was created) nor the host name

---
 include/crab/http/crab_tls.hpp | 2 +-
 include/crab/http/crab_tls.hxx | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/crab_tls.hpp b/include/crab/http/crab_tls.hpp
index 222343f..10ca87d 100644
--- a/include/crab/http/crab_tls.hpp
+++ b/include/crab/http/crab_tls.hpp
@@ -89,7 +89,7 @@ public:
 	}
 	bool connect_tls(const Address &address, const std::string &host) {
 		close();
-		if (!sock.connect(address))
+		if (host.empty() || !sock.connect(address))  // Server cannot be verified without host
 			return false;
 		details::TLSInit::init_tls();
 		tls_engine.reset(new details::TLSEngine(host));
diff --git a/include/crab/http/crab_tls.hxx b/include/crab/http/crab_tls.hxx
index 341caee..5cd7bfd 100644
--- a/include/crab/http/crab_tls.hxx
+++ b/include/crab/http/crab_tls.hxx
@@ -36,7 +36,8 @@ CRAB_INLINE details::TLSEngine::TLSEngine(const std::string &host)
 	SSL_set_bio(ssl, bio_in, bio_out);
 
 	details::add_tls_root_certificates(ctx);
-	SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, nullptr);
+	SSL_set_verify(ssl, SSL_VERIFY_PEER, nullptr);  // ssl already exists, so setting it in ctx is too late
+	check(SSL_set1_host(ssl, host.c_str()) == 1, "crab::TLSEngine SSL_set1_host failed");
 	SSL_set_tlsext_host_name(ssl, host.c_str());
 	SSL_set_connect_state(ssl);
 	SSL_do_handshake(ssl);
-- 
2.43.0


From b0fbb220efb56d4dacf2fba01c353c3f8766d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 51/55] fix: TLS data, received just before connection was
 closed by peer, was lost

---
 include/crab/http/crab_tls.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/crab_tls.hxx b/include/crab/http/crab_tls.hxx
index 5cd7bfd..d5ad1f4 100644
--- a/include/crab/http/crab_tls.hxx
+++ b/include/crab/http/crab_tls.hxx
@@ -75,6 +75,8 @@ CRAB_INLINE void details::TLSEngine::read_from_socket(IStream *sock) {
 			incoming_buffer.did_write(static_cast<size_t>(result));
 			continue;
 		}
+		if (incoming_buffer.read_count() != 0)
+			break;  // If connection is closed, client must learn that only after reading all data
 		uint8_t buffer[65536];
 		size_t rd = sock->read_some(buffer, sizeof(buffer));
 		if (rd == 0)
-- 
2.43.0


From 7cb95c4da441327e6060faaccde067df21be2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 52/55] fix: TLS client did not notice close_notify and fatal
 errors (like wrong certificate), so connection stayed open, collecting data
 from peer

---
 include/crab/http/crab_tls.hpp | 16 ++++++++++------
 include/crab/http/crab_tls.hxx |  7 ++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/crab/http/crab_tls.hpp b/include/crab/http/crab_tls.hpp
index 10ca87d..238fbf4 100644
--- a/include/crab/http/crab_tls.hpp
+++ b/include/crab/http/crab_tls.hpp
@@ -49,7 +49,7 @@ public:
 
 	// Encrypted socket-facing side
 	void write_to_socket(OStream *sock);
-	void read_from_socket(IStream *sock);
+	bool read_from_socket(IStream *sock);  // false if there will be no more data after what is already in the buffer
 
 	// Unencrypted client-facing side
 	size_t read_some(uint8_t *val, size_t count) { return incoming_buffer.read_some(val, count); }
@@ -104,7 +104,7 @@ public:
 	size_t read_some(uint8_t *val, size_t count) override {
 		if (!tls_engine)
 			return sock.read_some(val, count);
-		tls_engine->read_from_socket(&sock);
+		run_engine();
 		return tls_engine->read_some(val, count);
 	}
 	using IStream::read_some;  // Version for other char types
@@ -131,11 +131,15 @@ private:
 	Handler rwd_handler;
 	std::unique_ptr<details::TLSEngine> tls_engine;
 
+	void run_engine() {
+		const bool more = tls_engine->read_from_socket(&sock);
+		tls_engine->write_to_socket(&sock);  // Engine also writes on its own - handshakes, key updates, alerts
+		if (!more)
+			sock.close(true);
+	}
 	void on_sock() {
-		if (tls_engine) {
-			tls_engine->read_from_socket(&sock);
-			tls_engine->write_to_socket(&sock);
-		}
+		if (tls_engine)
+			run_engine();
 		rwd_handler();
 	}
 };
diff --git a/include/crab/http/crab_tls.hxx b/include/crab/http/crab_tls.hxx
index d5ad1f4..8393e09 100644
--- a/include/crab/http/crab_tls.hxx
+++ b/include/crab/http/crab_tls.hxx
@@ -68,8 +68,9 @@ CRAB_INLINE void details::TLSEngine::write_to_socket(OStream *sock) {
 		outgoing_buffer.did_write(static_cast<size_t>(avail));
 	}
 }
-CRAB_INLINE void details::TLSEngine::read_from_socket(IStream *sock) {
+CRAB_INLINE bool details::TLSEngine::read_from_socket(IStream *sock) {
 	while (incoming_buffer.write_count() != 0) {
+		ERR_clear_error();
 		int result = SSL_read(ssl, incoming_buffer.write_ptr(), incoming_buffer.write_count());
 		if (result > 0) {
 			incoming_buffer.did_write(static_cast<size_t>(result));
@@ -77,12 +78,16 @@ CRAB_INLINE void details::TLSEngine::read_from_socket(IStream *sock) {
 		}
 		if (incoming_buffer.read_count() != 0)
 			break;  // If connection is closed, client must learn that only after reading all data
+		int error = SSL_get_error(ssl, result);
+		if (error != SSL_ERROR_WANT_READ && error != SSL_ERROR_WANT_WRITE)
+			return false;  // close_notify or fatal error
 		uint8_t buffer[65536];
 		size_t rd = sock->read_some(buffer, sizeof(buffer));
 		if (rd == 0)
 			break;
 		invariant(BIO_write(bio_in, buffer, rd) == int(rd), "BIO_write could not consume all data");
 	}
+	return true;
 }
 
 }  // namespace crab
-- 
2.43.0


From 369fd2a79f96e42f271fcaa011f530044c7750eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 53/55] fix: time of a record is printed with microseconds
 padded by zeroes, 1.000005 was printed as 1.5

---
 include/crab/network.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 40a0519..6aa8a70 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -23,7 +23,8 @@ CRAB_INLINE void PerformanceStats::print_records(std::ostream &out) {
 	for (const auto &p : performance) {
 		auto mksec = std::chrono::duration_cast<std::chrono::microseconds>(p.tm.time_since_epoch()).count();
 		auto sec   = mksec / 1000000;
-		out << "* " << sec << "." << mksec % 1000000 << " " << p.event_type << " " << p.count << std::endl;
+		auto frac  = std::to_string(1000000 + mksec % 1000000).substr(1);  // with leading zeroes
+		out << "* " << sec << "." << frac << " " << p.event_type << " " << p.count << std::endl;
 	}
 	out << "---- total records " << performance.size() << std::endl;
 	clear_records();
-- 
2.43.0


From 031dc2fd0d08234dc2cc551af0b1cb834a697a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 54/55] fix: record of reading into two buffers holds the size
 of both

---
 include/crab/network_posix.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index a4b8624..d138a3c 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -530,7 +530,7 @@ CRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t *val
 	if (!fd.is_valid() || !rwd_handler.can_read)
 		return 0;
 	RunLoop::current()->stats.RECV_count += 1;
-	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count));
+	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count + count2));
 	struct iovec iovec[2];
 	auto iovec_count = 0;
 	if (count) {
-- 
2.43.0


From ff79c82cd300d9911096a2533712c1cf210c9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 55/55] fix: reading 0 bytes closed the connection, if there
 were bytes to read

---
 include/crab/network_posix.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index d138a3c..d4e3bdc 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -500,11 +500,10 @@ CRAB_INLINE void TCPSocket::accept(TCPAcceptor &acceptor, Address *accepted_addr
 }
 
 CRAB_INLINE size_t TCPSocket::read_some(uint8_t *data, size_t count) {
-	if (!fd.is_valid() || !rwd_handler.can_read)
-		return 0;
+	if (!fd.is_valid() || !rwd_handler.can_read || count == 0)
+		return 0;  // If count is 0, recv() returns 0, which we could not tell from closed by remote
 	RunLoop::current()->stats.RECV_count += 1;
 	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count));
-	// TODO - decide what happens when count is 0
 	ssize_t result = ::recv(fd.get_value(), data, count, details::CRAB_MSG_NOSIGNAL);
 	RunLoop::current()->stats.push_record("R(recv)", fd.get_value(), int(result));
 	if (result == 0) {  // remote closed
@@ -527,7 +526,7 @@ CRAB_INLINE size_t TCPSocket::read_some(uint8_t *data, size_t count) {
 }
 
 CRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t *val2, size_t count2) {
-	if (!fd.is_valid() || !rwd_handler.can_read)
+	if (!fd.is_valid() || !rwd_handler.can_read || (count == 0 && count2 == 0))
 		return 0;
 	RunLoop::current()->stats.RECV_count += 1;
 	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count + count2));
@@ -543,7 +542,6 @@ CRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t *val
 		iovec[iovec_count].iov_len  = count2;
 		iovec_count += 1;
 	}
-	// TODO - decide what happens when iovec_count is 0
 	struct msghdr msg {};
 	msg.msg_iov    = iovec;
 	msg.msg_iovlen = iovec_count;
-- 
2.43.0

