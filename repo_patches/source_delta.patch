From ac7fa7acf7ed3e8a91416117354ca932bae031b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 01/64] fix: integer to_chars underflows its buffer with a big
 minimum width

---
 seq/charconv.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..87ba526 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1135,8 +1135,10 @@ namespace seq
 				}
 				const char* chars = fmt.upper_case ? upper_chars : lower_chars;
 				int min_width = static_cast<int>(fmt.integral_min_width);
-				char tmp[66];
-				int index = 65;
+				// Large enough for the maximum width, the hexadecimal prefix and the sign
+				static constexpr int max_size = std::numeric_limits<unsigned char>::max() + 3;
+				char tmp[max_size + 1];
+				int index = max_size;
 				tmp[index] = 0;
 				unsigned neg = 0;
 
@@ -1158,8 +1160,8 @@ namespace seq
 					val = _new;
 				}
 				if (min_width >= 0) {
-					int count = 65 - index;
-					while (min_width-- > count && index > 0) {
+					int count = max_size - index;
+					while (min_width-- > count) {
 						tmp[--index] = '0';
 					}
 				}
-- 
2.43.0


From a1c03761d6450956f524b468ecf53185d469df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 02/64] fix: integer from_chars accepts a sign without digit
 and rejects a single digit in bases other than 10

---
 seq/charconv.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 87ba526..3b1e0cc 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -515,12 +515,9 @@ namespace seq
 				sign = -1;
 				first = (int)str.getc();
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+			// at least one digit is mandatory
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
 
 			while (is_digit(first)) {
 				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
@@ -606,8 +603,10 @@ namespace seq
 					val = to_digit_hex(first);
 
 				if SEQ_UNLIKELY (val >= base) {
-					// invalid char
-					str.back();
+					// invalid char or end of stream
+					if (first != EOF)
+						str.back();
+					str.reset();
 					return sign_value(x, sign); // sign == -1 ? -x : x;
 				}
 				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-- 
2.43.0


From 2117edd5b613ddc7feea8b588a6c9ac870a3ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 03/64] fix: number parsing confuses wide characters with the
 end of the stream and with digits

---
 seq/charconv.hpp | 112 +++++++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 52 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 3b1e0cc..1bfca35 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -406,10 +406,10 @@ namespace seq
 		{
 			return c == '\n' || c == '\r';
 		}
-		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> char
+		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> int
 		{
-			static constexpr char offset = 'a' - 'A';
-			return static_cast<char>(c >= 'a' ? c - offset : c);
+			static constexpr int offset = 'a' - 'A';
+			return (c >= 'a' && c <= 'z') ? c - offset : c;
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
@@ -421,6 +421,14 @@ namespace seq
 		/// Read functions
 		//////////////////////////////////////////////////////////////////////////////
 
+		template<class Stream>
+		SEQ_ALWAYS_INLINE auto get_char(Stream& str) -> int
+		{
+			// Read next character, returns EOF for the end of stream whatever the character type
+			const auto c = str.getc();
+			return c == static_cast<typename Stream::char_type>(EOF) ? EOF : static_cast<int>(c);
+		}
+
 		static inline auto get_pow_double(int exponent) -> double
 		{
 			static const double pow10[] = {
@@ -494,26 +502,26 @@ namespace seq
 			int sign = 1;
 
 			// get first character
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = get_char(str);
 
 			// check EOF
-			if SEQ_UNLIKELY (first == EOF)
+			if SEQ_UNLIKELY (!str)
 				return 0;
 
 			// check sign
 			if (first == '+') {
 				sign = 1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			else if (first == '-') {
 				if (!std::is_signed_v<T>)
 					goto error;
 				sign = -1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			// at least one digit is mandatory
 			if SEQ_UNLIKELY (!is_digit(first))
@@ -521,9 +529,9 @@ namespace seq
 
 			while (is_digit(first)) {
 				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
-				first = (int)str.getc();
+				first = get_char(str);
 			}
-			if (first != EOF)
+			if (str)
 				str.back();
 
 			str.reset();
@@ -555,26 +563,26 @@ namespace seq
 			int sign = 1;
 			unsigned val;
 			// get frist character
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = get_char(str);
 
 			// check EOF
-			if SEQ_UNLIKELY (first == EOF)
+			if SEQ_UNLIKELY (!str)
 				return 0;
 
 			// check sign
 			if (first == '+') {
 				sign = 1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			else if (first == '-') {
 				if SEQ_UNLIKELY (!std::is_signed_v<T>)
 					goto error;
 				sign = -1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 
 			{
@@ -585,7 +593,7 @@ namespace seq
 				x = static_cast<T>(val);
 
 				// read second one
-				first = (int)str.getc();
+				first = get_char(str);
 				if (base == 16 && to_upper(first) == 'X') {
 					// hexadecimal starting with '0x' or '0X'
 					if (x != 0) {
@@ -593,7 +601,7 @@ namespace seq
 						str.back();
 						return sign_value(x, sign); // sign == -1 ? -x : x;
 					}
-					first = (int)str.getc();
+					first = get_char(str);
 					val = to_digit_hex(first);
 					if SEQ_UNLIKELY (val >= base)
 						// next char after '0x' is not a valid hex digit
@@ -604,22 +612,22 @@ namespace seq
 
 				if SEQ_UNLIKELY (val >= base) {
 					// invalid char or end of stream
-					if (first != EOF)
+					if (str)
 						str.back();
 					str.reset();
 					return sign_value(x, sign); // sign == -1 ? -x : x;
 				}
 				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-				first = (int)str.getc();
+				first = get_char(str);
 				val = to_digit_hex(first);
 			}
 
 			while (val < base) {
 				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-				first = (int)str.getc();
+				first = get_char(str);
 				val = to_digit_hex(first);
 			}
-			if (first != EOF)
+			if (str)
 				str.back();
 
 			str.reset();
@@ -650,7 +658,7 @@ namespace seq
 			std::int64_t x = 0;
 			int count = 0;
 			// get frist character
-			unsigned first = static_cast<unsigned>((int)str.getc() - '0');
+			unsigned first = static_cast<unsigned>(get_char(str) - '0');
 			unsigned second;
 
 			// check EOF
@@ -658,12 +666,12 @@ namespace seq
 				goto error;
 			}
 
-			second = static_cast<unsigned>((int)str.getc() - '0');
+			second = static_cast<unsigned>(get_char(str) - '0');
 			count = 0;
 			while ((first <= 9) && (second <= 9)) {
 				x = x * static_cast<int64_t>(100) + static_cast<int64_t>(integral_read_table[first][second]);
-				first = static_cast<unsigned>((int)str.getc() - '0');
-				second = static_cast<unsigned>((int)str.getc() - '0');
+				first = static_cast<unsigned>(get_char(str) - '0');
+				second = static_cast<unsigned>(get_char(str) - '0');
 				count += 2;
 				if SEQ_UNLIKELY (count > 18) {
 					goto too_long_int;
@@ -698,8 +706,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			char a = to_upper((int)str.getc());
-			char n = to_upper((int)str.getc());
+			int a = to_upper(get_char(str));
+			int n = to_upper(get_char(str));
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -712,8 +720,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			char n = to_upper((int)str.getc());
-			char f = to_upper((int)str.getc());
+			int n = to_upper(get_char(str));
+			int f = to_upper(get_char(str));
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
@@ -752,12 +760,12 @@ namespace seq
 			}
 
 			Integral save_point = NullValue<Integral>::value;
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// read decimal
 			while (is_digit(first)) {
 				res = (res * static_cast<T>(10)) + static_cast<T>(first - '0');
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			if (first == EOF) {
 				if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
@@ -771,12 +779,12 @@ namespace seq
 			if (first == dot) {
 
 				// read fractional part
-				first = (int)str.getc();
+				first = get_char(str);
 				T factor = static_cast<T>(0.1);
 				while (is_digit(first)) {
 					res = res + static_cast<T>(first - '0') * factor;
 					factor *= static_cast<T>(0.1);
-					first = (int)str.getc();
+					first = get_char(str);
 				}
 				if (first == EOF) {
 					if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
@@ -797,18 +805,18 @@ namespace seq
 
 				save_point = str.tell() - 1;
 				// read exponent part
-				first = (int)str.getc();
+				first = get_char(str);
 				int exp_sign = 1;
 				int exp = 0;
 				if (first == '-') {
 					exp_sign = -1;
-					first = (int)str.getc();
+					first = get_char(str);
 					if (!is_digit(first)) {
 						goto partial;
 					}
 				}
 				else if (first == '+') {
-					first = (int)str.getc();
+					first = get_char(str);
 					if (!is_digit(first)) {
 						goto partial;
 					}
@@ -819,7 +827,7 @@ namespace seq
 
 				do {
 					exp = (exp * 10) + static_cast<int>(first - '0');
-					first = (int)str.getc();
+					first = get_char(str);
 				} while (is_digit(first));
 				exp = exp_sign == -1 ? -exp : exp;
 				if (exp < -323 || exp > 308) {
@@ -870,14 +878,14 @@ namespace seq
 
 			str.reset();
 			Integral saved = str.tell();
-			int first = (int)str.getc();
+			int first = get_char(str);
 			int sign = 1;
 			int c;
 			T res = 0;
 
 			// skip spaces
 			while (is_space(first)) {
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF) {
@@ -887,14 +895,14 @@ namespace seq
 			if (first == '-') {
 				// first character is a sign
 				sign = -1;
-				first = (int)str.getc();
+				first = get_char(str);
 				if SEQ_UNLIKELY (first == EOF) {
 					return 0;
 				}
 			}
 			else if (first == '+') {
 				// first character is a sign
-				first = (int)str.getc();
+				first = get_char(str);
 				if SEQ_UNLIKELY (first == EOF) {
 					return 0;
 				}
@@ -935,7 +943,7 @@ namespace seq
 			res = static_cast<T>(integral);
 			check_point = str.tell();
 
-			c = (int)str.getc();
+			c = get_char(str);
 			if (c == dot) {
 				// read decimal part
 				Integral new_check_point = str.tell();
@@ -954,7 +962,7 @@ namespace seq
 				}
 				int dist = static_cast<int>(str.tell() - new_check_point);
 				res += static_cast<T>(decimal) * get_pow<T>(-dist);
-				c = (int)str.getc();
+				c = get_char(str);
 			}
 			if (c == 'e' || c == 'E') {
 				if SEQ_UNLIKELY (fmt == fixed) {
@@ -964,7 +972,7 @@ namespace seq
 				// read exponent
 				int exp = 0;
 				int esign = 1;
-				c = (int)str.getc();
+				c = get_char(str);
 				if (!is_digit(c)) {
 					// read exponent sign
 					if (c == '-') {
@@ -973,7 +981,7 @@ namespace seq
 					else if SEQ_UNLIKELY (c != '+') {
 						return return_bad_format<T>(saved, str);
 					}
-					c = (int)str.getc();
+					c = get_char(str);
 					if (!is_digit(c)) {
 						return return_bad_format<T>(saved, str);
 					}
@@ -982,7 +990,7 @@ namespace seq
 				unsigned cc = static_cast<unsigned>(c - '0');
 				do {
 					exp = (exp * 10) + static_cast<int>(cc);
-					cc = static_cast<unsigned>((int)str.getc() - '0');
+					cc = static_cast<unsigned>(get_char(str) - '0');
 				} while (cc <= 9U);
 				if (cc != _EOF) {
 					str.back();
@@ -1033,11 +1041,11 @@ namespace seq
 			// Read a string object (std::string or seq::tiny_string) from input stream
 			str.reset();
 
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = get_char(str);
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
 				return T();
@@ -1045,7 +1053,7 @@ namespace seq
 			T res;
 			res.push_back(static_cast<StringChar>(first));
 			for (;;) {
-				first = (int)str.getc();
+				first = get_char(str);
 				if (!is_space(first) && first != EOF)
 					res.push_back((StringChar)first);
 				else
@@ -1069,11 +1077,11 @@ namespace seq
 			// Read a line (std::string or seq::tiny_string) from input stream
 			str.reset();
 
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first)) {
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
@@ -1082,7 +1090,7 @@ namespace seq
 			T res;
 			res.push_back(static_cast<StringChar>(first));
 			for (;;) {
-				first = (int)str.getc();
+				first = get_char(str);
 				if (!is_eol(first) && first != EOF)
 					res.push_back((StringChar)first);
 				else
-- 
2.43.0


From 2afb4cde796f84e18b2f1481562fe21473daa249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 04/64] fix: floating point from_chars rejects texts starting
 or ending with the dot

---
 seq/charconv.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 1bfca35..c105c26 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -927,7 +927,8 @@ namespace seq
 			str.back();
 			Integral check_point = str.tell();
 			// read intergal part
-			int64_t integral = read_int64(str);
+			const bool has_integral = first != dot;
+			int64_t integral = has_integral ? read_int64(str) : 0;
 			if SEQ_UNLIKELY (!str) {
 				if (integral == -1) {
 					// too big: switch to the default slower version
@@ -953,15 +954,18 @@ namespace seq
 						// too big: switch to the default slower version
 						goto slow_path;
 					}
-					if (fmt == scientific) {
-						// exponent is mandatory
+					if (!has_integral) {
+						// at least one digit is mandatory
 						return return_bad_format<T>(saved, str);
 					}
 					// we accept a dot with nothing after
-					return sign_value(res, sign);
+					str.reset();
+					str.seek(new_check_point);
+				}
+				else {
+					int dist = static_cast<int>(str.tell() - new_check_point);
+					res += static_cast<T>(decimal) * get_pow<T>(-dist);
 				}
-				int dist = static_cast<int>(str.tell() - new_check_point);
-				res += static_cast<T>(decimal) * get_pow<T>(-dist);
 				c = get_char(str);
 			}
 			if (c == 'e' || c == 'E') {
-- 
2.43.0


From f62e0e9e73cf046443b6b433764592a1a0e49a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 05/64] fix: undefined behaviors when reading and writing
 floating point values

---
 seq/charconv.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index c105c26..01516c3 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -322,12 +322,12 @@ namespace seq
 
 		using u_double = union
 		{
-			unsigned short bytes[sizeof(double)];
+			unsigned short bytes[sizeof(double) / sizeof(unsigned short)];
 			double val;
 		};
 		using u_float = union
 		{
-			unsigned short bytes[sizeof(float)];
+			unsigned short bytes[sizeof(float) / sizeof(unsigned short)];
 			float val;
 		};
 
@@ -673,7 +673,8 @@ namespace seq
 				first = static_cast<unsigned>(get_char(str) - '0');
 				second = static_cast<unsigned>(get_char(str) - '0');
 				count += 2;
-				if SEQ_UNLIKELY (count > 18) {
+				if SEQ_UNLIKELY (count == 18 && (first <= 9)) {
+					// more than 18 digits, stop before overflow
 					goto too_long_int;
 				}
 			}
-- 
2.43.0


From ceedcef46c8943ac0164b839bdd8e3c1e20befda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 06/64] fix: signed overflow when reading the minimum value of
 a signed integer

---
 seq/charconv.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 01516c3..05b9d7f 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -498,7 +498,9 @@ namespace seq
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			// unsigned arithmetic: the magnitude of the minimum value does not fit a signed type
+			using U = std::make_unsigned_t<T>;
+			U x = 0;
 			int sign = 1;
 
 			// get first character
@@ -528,7 +530,7 @@ namespace seq
 				goto error;
 
 			while (is_digit(first)) {
-				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
+				x = (x * static_cast<U>(10)) + static_cast<U>(first - '0');
 				first = get_char(str);
 			}
 			if (str)
@@ -536,7 +538,7 @@ namespace seq
 
 			str.reset();
 
-			return sign_value(x, sign);
+			return static_cast<T>(sign_value(x, sign));
 
 		error:
 			if (str)
@@ -559,7 +561,9 @@ namespace seq
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			// unsigned arithmetic: the magnitude of the minimum value does not fit a signed type
+			using U = std::make_unsigned_t<T>;
+			U x = 0;
 			int sign = 1;
 			unsigned val;
 			// get frist character
@@ -590,7 +594,7 @@ namespace seq
 				val = to_digit_hex(first);
 				if SEQ_UNLIKELY (val >= base)
 					goto error;
-				x = static_cast<T>(val);
+				x = static_cast<U>(val);
 
 				// read second one
 				first = get_char(str);
@@ -599,7 +603,7 @@ namespace seq
 					if (x != 0) {
 						// X after non 0 digit, return
 						str.back();
-						return sign_value(x, sign); // sign == -1 ? -x : x;
+						return static_cast<T>(sign_value(x, sign)); // sign == -1 ? -x : x;
 					}
 					first = get_char(str);
 					val = to_digit_hex(first);
@@ -615,15 +619,15 @@ namespace seq
 					if (str)
 						str.back();
 					str.reset();
-					return sign_value(x, sign); // sign == -1 ? -x : x;
+					return static_cast<T>(sign_value(x, sign)); // sign == -1 ? -x : x;
 				}
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				x = (x * static_cast<U>(base)) + static_cast<U>(val);
 				first = get_char(str);
 				val = to_digit_hex(first);
 			}
 
 			while (val < base) {
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				x = (x * static_cast<U>(base)) + static_cast<U>(val);
 				first = get_char(str);
 				val = to_digit_hex(first);
 			}
@@ -631,7 +635,7 @@ namespace seq
 				str.back();
 
 			str.reset();
-			return sign_value(x, sign); // sign == -1 ? -x : x;
+			return static_cast<T>(sign_value(x, sign)); // sign == -1 ? -x : x;
 
 		error:
 			if (str)
-- 
2.43.0


From 287691654203c81a2eb59dbb5e9c297feb0dff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 07/64] fix: signed overflow when testing wide characters for
 digits

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 05b9d7f..93c1da0 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -391,7 +391,7 @@ namespace seq
 
 		static SEQ_ALWAYS_INLINE auto digit_value(int c) noexcept -> unsigned
 		{
-			return static_cast<unsigned>(c - '0');
+			return static_cast<unsigned>(c) - static_cast<unsigned>('0');
 		}
 		static SEQ_ALWAYS_INLINE auto is_digit(int c) noexcept -> bool
 		{
-- 
2.43.0


From f280013200e2bca5b9f8c6b5363647c34d784e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:24 +0000
Subject: [PATCH 08/64] fix: signed overflow in seq::abs and negate_if_signed
 with the minimum value

---
 seq/type_traits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/type_traits.hpp b/seq/type_traits.hpp
index de4ab82..2656a6a 100644
--- a/seq/type_traits.hpp
+++ b/seq/type_traits.hpp
@@ -93,7 +93,8 @@ namespace seq
 	auto negate_if_signed(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(-v);
+			// unsigned negation: -v overflows for the minimum value
+			return static_cast<std::make_unsigned_t<T>>(0U - static_cast<std::make_unsigned_t<T>>(v));
 		else
 			return v;
 	}
@@ -102,7 +103,7 @@ namespace seq
 	auto abs(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(v < 0 ? -v : v);
+			return v < 0 ? negate_if_signed(v) : static_cast<std::make_unsigned_t<T>>(v);
 		else
 			return v;
 	}
-- 
2.43.0


From 2bace6b1392d2c9569d4c67ee826bc4deec7a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 09/64] fix: devector::emplace_back/front use a moved element
 when the argument is an element of the devector

---
 seq/devector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..1d52064 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -515,10 +515,12 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
+					// args might refer to an element of the devector: build the new value first
+					T tmp(std::forward<Args>(args)...);
 					copy_destroy_input(start, end, data);
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
+					construct_ptr(end, std::move(tmp));
 					return;
 				}
 
@@ -569,10 +571,12 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
+					// args might refer to an element of the devector: build the new value first
+					T tmp(std::forward<Args>(args)...);
 					copy_destroy_input(start, end, data + (capacity - size));
 					start = data + (capacity - size);
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
+					construct_ptr(start-1, std::move(tmp));
 					return;
 				}
 				
-- 
2.43.0


From 3e0d7916c617f22588e45a561b228e2cb100d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 10/64] fix: devector::emplace near the front destroys an
 element twice with relocatable types

---
 seq/devector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 1d52064..089613b 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -853,11 +853,16 @@ namespace seq
 				// insert on the left side
 				T tmp = T(std::forward<Args>(args)...); //handle aliasing
 				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					// relocate the elements: the value at dist is then considered as raw memory
+					destroy_ptr(begin());
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
-				else
+					construct_ptr(begin() + dist, std::move(tmp));
+				}
+				else {
 					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					*(begin() + dist) = std::move(tmp);
+				}
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From ba88cd484233b8b20128489b6adc5163892cab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 11/64] fix: devector::resize_front leaks the previous storage,
 resize and resize_front leak elements on exception

---
 seq/devector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 089613b..ae30e3e 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -425,6 +425,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start);
 						}
 						catch (...) {
+							destroy_range(_new_start + size, _new_end);
 							deallocate(_new, _new_capacity);
 							throw;
 						}
@@ -474,7 +475,7 @@ namespace seq
 						T* _new_end = _new_start + new_size;
 
 						try {
-							construct_range(_new, _new + (new_size - size), helper);
+							construct_range(_new_start, _new_start + (new_size - size), helper);
 						}
 						catch (...) {
 							deallocate(_new, _new_capacity);
@@ -484,9 +485,13 @@ namespace seq
 							copy_destroy_input(start, end, _new_start + (new_size - size));
 						}
 						catch (...) {
+							destroy_range(_new_start, _new_start + (new_size - size));
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From b9a55c60da31053457bf2852c9e27c88f64b5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 12/64] fix: devector destroys elements twice when a move
 assignment throws while moving its elements to the front

---
 seq/devector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index ae30e3e..2c9e268 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -200,10 +200,10 @@ namespace seq
 
 				if (dst < first) {
 					T* saved = dst;
+					T* en = first;
 
 					try {
 						// Construct first part
-						T* en = first;
 						while (dst < en && first != last) {
 							construct_ptr(dst, std::move(*first));
 							++dst;
@@ -219,8 +219,8 @@ namespace seq
 						destroy_range(dst, last);
 					}
 					catch (...) {
-						// destroy previously created values (first part only, before first)
-						while (saved != dst && saved != first) {
+						// destroy previously created values (first part only, before the input range)
+						while (saved != dst && saved != en) {
 							destroy_ptr(saved++);
 						}
 						throw;
-- 
2.43.0


From aa298d436f5b28b281023e8a75d93c5aa619050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 13/64] fix: hasher<float> and hasher<double> give different
 values for the 2 zeros

---
 seq/hash.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/hash.hpp b/seq/hash.hpp
index 8374568..fcf9be7 100644
--- a/seq/hash.hpp
+++ b/seq/hash.hpp
@@ -207,7 +207,8 @@ namespace seq
 				float fv;
 				std::uint32_t uv;
 			};
-			fv = v;
+			// the 2 zeros compare equal
+			fv = v == 0.f ? 0.f : v;
 			return hash_finalize(uv);
 		}
 	};
@@ -223,7 +224,8 @@ namespace seq
 				double fv;
 				std::uint64_t uv;
 			};
-			fv = v;
+			// the 2 zeros compare equal
+			fv = v == 0. ? 0. : v;
 			return hash_finalize(static_cast<size_t>(uv));
 		}
 	};
-- 
2.43.0


From 1df5c78f9be1aafca6c8da06974acd1a73f25bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 14/64] fix: hash_bytes_murmur64 dereferences null for an empty
 range at null, and computes addresses before the range

---
 seq/internal/hash_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/hash_impl.hpp b/seq/internal/hash_impl.hpp
index 4f526db..3e41f76 100644
--- a/seq/internal/hash_impl.hpp
+++ b/seq/internal/hash_impl.hpp
@@ -44,8 +44,8 @@ namespace seq
 
 			const unsigned char* ptr = static_cast<const unsigned char*>(_ptr);
 			std::uint64_t h = seed ^ (len * m);
-			const std::uint8_t* end = ptr + len - (sizeof(std::uint64_t) - 1);
-			while (ptr < end) {
+			const std::uint8_t* end = ptr + (len - len % sizeof(std::uint64_t));
+			while (ptr != end) {
 				auto k = read_64(ptr);
 
 				k *= m;
-- 
2.43.0


From 71634fe35dfe8fd9f443e79c96df373cbb8260e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 15/64] fix: tiered_vector iterator arithmetic reads outside of
 the buckets at the end or in an empty container

---
 seq/tiered_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..443dd8f 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -69,7 +69,8 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE std::pair<cbuffer_pos, cbuffer_pos> update(size_type p) const noexcept
 			{
-				if (mgr)
+				// There is no valid index for the end position
+				if (mgr && p < mgr->d_size)
 					return mgr->indexes(p);
 				return { 0, 0 };
 			}
@@ -112,6 +113,9 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				// The container might be empty
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
-- 
2.43.0


From d9b82788d7250ad6a894e2dd030c2580435984ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 16/64] fix: tiered_vector::emplace returns the displaced
 element when a full bucket is split

---
 seq/tiered_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 443dd8f..701f823 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1927,7 +1927,8 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					res = &d_buckets[0].bucket->at(index);
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
@@ -1963,7 +1964,8 @@ namespace seq
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
+						create_front_bucket()->emplace_back(std::move(tmp));
+						res = &at(pos);
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -2040,7 +2042,8 @@ namespace seq
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
+						create_back_bucket()->emplace_back(std::move(tmp));
+						res = &at(pos);
 					}
 					catch (...) {
 						// Remove empty back bucket
-- 
2.43.0


From 6f3e7ff10762cbf43de905627f25e59ada000f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:09 +0000
Subject: [PATCH 17/64] fix: tiered_vector for_each and assign with an empty
 range dereference null in an empty container

---
 seq/tiered_vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 701f823..fa94f70 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1623,6 +1623,8 @@ namespace seq
 			auto for_each(size_type start, size_type end, Functor fun) const -> Functor
 			{
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -1659,6 +1661,8 @@ namespace seq
 				// Construct/fill out using values from start to end
 
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -2819,6 +2823,10 @@ namespace seq
 		void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
 			size_type count = static_cast<size_t>(last - first);
+			if (count == 0) {
+				clear();
+				return;
+			}
 			if (size() != count && size() > 0 && findBSize(count) != manager()->bucket_size()) {
 				// Create an empty manager, might throw
 				bucket_manager* tmp = make_manager(get_allocator(), findBSize(count), get_allocator());
-- 
2.43.0


From 2935012fc6b9452de6b6ed325f9d56a310abaf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 18/64] fix: tiered_vector insertion in the middle uses moved
 elements and loses its size when the constructor throws

---
 seq/tiered_vector.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index fa94f70..471f7c3 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1931,7 +1931,14 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					BucketType* back_bucket = create_back_bucket();
+					try {
+						back_bucket->emplace_back(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...));
+					}
+					catch (...) {
+						remove_back_bucket();
+						throw;
+					}
 					res = &d_buckets[0].bucket->at(index);
 					if (StoreBackValues) {
 						d_buckets.back().update();
@@ -2102,20 +2109,24 @@ namespace seq
 			{
 				T* res = nullptr;
 
+				// Build the value before moving anything: arguments might refer to an element
+				// of this container, and the constructor might throw
+				T value(std::forward<Args>(args)...);
+
 				size_t front_size = static_cast<size_t>(d_buckets.front()->size);
 				size_t bucket_index = (pos + (static_cast<size_t>(d_bucket_size) - front_size)) >> static_cast<size_t>(d_bucket_size_bits);
 				int index = static_cast<int>((pos - (pos < front_size ? 0 : front_size)) & static_cast<size_t>(d_bucket_size1));
 
 				if SEQ_UNLIKELY (d_buckets.size() == 1) {
-					res = insert_one_bucket(bucket_index, index, std::forward<Args>(args)...);
+					res = insert_one_bucket(bucket_index, index, std::move(value));
 				}
 				else if (pos < d_size / 2) {
 					// bucket is on the left side
-					res = insert_left(pos, bucket_index, index, std::forward<Args>(args)...);
+					res = insert_left(pos, bucket_index, index, std::move(value));
 				}
 				else {
 					// bucket is on the right side
-					res = insert_right(pos, bucket_index, index, std::forward<Args>(args)...);
+					res = insert_right(pos, bucket_index, index, std::move(value));
 				}
 
 				d_size++;
-- 
2.43.0


From 11cba708b33b2879b133386a2c9916ee137a8fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 19/64] fix: tiered_vector insertions use a destroyed argument
 when it is an element and the bucket size changes

---
 seq/tiered_vector.hpp | 71 +++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 471f7c3..3e29b4a 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2720,14 +2720,27 @@ namespace seq
 
 		// Update the bucket size if necessary, used when inserting/deleting single elements
 		SEQ_ALWAYS_INLINE void update_bucket_size()
+		{
+			if SEQ_UNLIKELY (needs_bucket_size_check())
+				check_bucket_size();
+		}
+		// Returns true if the bucket size must be checked
+		SEQ_ALWAYS_INLINE bool needs_bucket_size_check() const noexcept
 		{
 			static constexpr size_t minb = static_cast<size_t>(min_block_size);
 			static constexpr size_t maxb = static_cast<size_t>(max_block_size);
 			static constexpr size_t mul_factor = (minb < 8U) ? 8U : minb;
 			static constexpr size_t mask = (mul_factor * mul_factor) - 1ULL;
 			// Check the bucket size every (min_block_size * min_block_size) insertions/deletions
-			if SEQ_UNLIKELY (min_block_size != maxb && (size() < 64U || (size() & mask) == 0))
-				check_bucket_size();
+			return min_block_size != maxb && (size() < 64U || (size() & mask) == 0);
+		}
+		// Returns true if inserting a single element changes the bucket size, in which case all elements
+		// are moved and the insertion arguments (that might refer to an element) must be saved first.
+		SEQ_ALWAYS_INLINE bool needs_new_bucket_size() const noexcept
+		{
+			if SEQ_UNLIKELY (needs_bucket_size_check())
+				return findBSize(size()) != manager()->bucket_size();
+			return false;
 		}
 		// Find bucket size based on full tiered_vector size
 		auto findBSize(size_type size) const noexcept -> detail::cbuffer_pos
@@ -3071,9 +3084,13 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might be an element of this container
+					T tmp_value(value);
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, 0U, std::min(count, this->size()), get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					manager()->resize(count, tmp_value);
+					return;
 				}
 				manager()->resize(count, value);
 			}
@@ -3123,12 +3140,16 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might be an element of this container
+					T tmp_value(value);
 					size_type fsize = std::min(count, this->size());
 					size_type fstart =
 					  static_cast<size_t>(std::max(static_cast<difference_type>(this->size()) - static_cast<difference_type>(fsize), static_cast<difference_type>(0)));
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, fstart, fsize, get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					manager()->resize_front(count, tmp_value);
+					return;
 				}
 				manager()->resize_front(count, value);
 			}
@@ -3149,9 +3170,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(value);
+			emplace_back(value);
 		}
 
 		/// @brief Appends the given element value to the end of the container using move semantic.
@@ -3159,9 +3178,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(std::move(value));
+			emplace_back(std::move(value));
 		}
 
 		/// @brief Appends a new element to the end of the container
@@ -3173,7 +3190,11 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace_back(Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (needs_new_bucket_size()) {
+				T value(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->emplace_back(std::move(value));
+			}
 			return manager()->emplace_back(std::forward<Args>(args)...);
 		}
 
@@ -3182,9 +3203,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(value);
+			emplace_front(value);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container using move semantic.
@@ -3192,9 +3211,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(std::move(value));
+			emplace_front(std::move(value));
 		}
 
 		/// @brief Appends a new element to the beginning of the container
@@ -3206,7 +3223,11 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace_front(Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (needs_new_bucket_size()) {
+				T value(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->emplace_front(std::move(value));
+			}
 			return manager()->emplace_front(std::forward<Args>(args)...);
 		}
 
@@ -3216,9 +3237,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, value);
+			emplace(pos, value);
 		}
 
 		/// @brief Insert \a value before \a pos using move semantic.
@@ -3227,9 +3246,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, std::move(value));
+			emplace(pos, std::move(value));
 		}
 
 		/// @brief Insert \a value before \a it
@@ -3262,7 +3279,11 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace(size_type pos, Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (needs_new_bucket_size()) {
+				T value(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->insert(pos, std::move(value));
+			}
 			return manager()->insert(pos, std::forward<Args>(args)...);
 		}
 
@@ -3275,9 +3296,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(const_iterator pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos.absolutePos(), std::forward<Args>(args)...);
+			return emplace(pos.absolutePos(), std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts elements from range [first, last) before pos.
-- 
2.43.0


From 9d0f0acab74b6b886de2511161f010679fa94689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 20/64] fix: tiered_vector leaks or corrupts its buckets when a
 constructor or an allocation throws

---
 seq/tiered_vector.hpp | 47 +++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 3e29b4a..ebdfc6b 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -719,8 +719,9 @@ namespace seq
 			template<class Helper>
 			void push_front_n(cbuffer_pos n, const Helper& helper)
 			{
+				cbuffer_pos i = 0;
 				try {
-					for (cbuffer_pos i = 0; i < n; ++i) {
+					for (; i < n; ++i) {
 						if (--begin < 0)
 							begin = max_size1;
 						helper.construct(buffer() + begin);
@@ -729,6 +730,8 @@ namespace seq
 				}
 				catch (...) {
 					begin = (begin + 1) & max_size1;
+					// Remove the values already constructed
+					pop_front_n(i);
 					throw;
 				}
 			}
@@ -1369,13 +1372,9 @@ namespace seq
 				other.d_size = 0;
 			}
 			// Construct by copying the content of other
+			// Delegates to the empty constructor: in case of exception the destructor releases the buckets
 			BucketManager(const this_type& other, cbuffer_pos new_bucket_size, size_type start = 0, size_type size = static_cast<size_t>(-1), const Allocator& al = Allocator())
-			  : Allocator(al)
-			  , d_buckets(al)
-			  , d_size(0)
-			  , d_bucket_size(new_bucket_size)
-			  , d_bucket_size1(new_bucket_size - 1)
-			  , d_bucket_size_bits(static_cast<cbuffer_pos>(bit_scan_reverse(static_cast<size_t>(new_bucket_size))))
+			  : BucketManager(new_bucket_size, al)
 			{
 				// Retrieve size
 				size_type full_size = size;
@@ -1447,13 +1446,9 @@ namespace seq
 			}
 
 			// Construct by moving the content of other and destroying other's elements
+			// Delegates to the empty constructor: in case of exception the destructor releases the buckets
 			BucketManager(this_type&& other, cbuffer_pos new_bucket_size, size_type start = 0, size_type size = static_cast<size_t>(-1), const Allocator& al = Allocator())
-			  : Allocator(al)
-			  , d_buckets(al)
-			  , d_size(0)
-			  , d_bucket_size(static_cast<cbuffer_pos>(new_bucket_size))
-			  , d_bucket_size1(static_cast<cbuffer_pos>(new_bucket_size - 1))
-			  , d_bucket_size_bits(static_cast<cbuffer_pos>(bit_scan_reverse(static_cast<size_t>(new_bucket_size))))
+			  : BucketManager(new_bucket_size, al)
 			{
 
 				// Get size
@@ -1501,7 +1496,14 @@ namespace seq
 				while (pos < end_pos) {
 
 					// Create bucket, may throw
-					BucketType* current = create_back_bucket();
+					BucketType* current = nullptr;
+					try {
+						current = create_back_bucket();
+					}
+					catch (...) {
+						other.destroy_all();
+						throw;
+					}
 					T* ptr = current->buffer();
 					// Compute end
 					size_type end = pos + static_cast<size_t>(new_bucket_size);
@@ -1600,6 +1602,7 @@ namespace seq
 						destroy_bucket(it->bucket);
 				}
 				d_buckets.clear();
+				d_size = 0;
 			}
 
 			// Move copy
@@ -2702,6 +2705,7 @@ namespace seq
 			}
 			catch (...) {
 				alloc.deallocate(res, 1);
+				throw;
 			}
 			return res;
 		}
@@ -2896,8 +2900,7 @@ namespace seq
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2905,8 +2908,7 @@ namespace seq
 		/// @param count new tiered_vector size
 		/// @param alloc allocator object
 		explicit tiered_vector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count);
 		}
@@ -2942,8 +2944,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(tiered_vector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_manager, other.d_manager);
@@ -2957,8 +2958,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param alloc allocator object
 		tiered_vector(const std::initializer_list<T>& lst, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -2969,8 +2969,7 @@ namespace seq
 		/// @param alloc allocator object
 		template<class Iter>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From bfd284d12221cf6679172d72e9f00a3cc79db726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 21/64] fix: tiered_vector leaves an empty bucket when a
 constructor throws

---
 seq/tiered_vector.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index ebdfc6b..06ebe61 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1422,7 +1422,6 @@ namespace seq
 							--ptr;
 							for (T* p = current->buffer(); p != ptr; ++p)
 								destroy_ptr(p);
-							this->remove_back_bucket();
 							throw;
 						}
 						size_type copied = end - pos;
@@ -1527,7 +1526,6 @@ namespace seq
 						--ptr;
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
-						this->remove_back_bucket();
 						other.destroy_all();
 						throw;
 					}
@@ -1893,10 +1891,20 @@ namespace seq
 				if SEQ_UNLIKELY (d_buckets.empty())
 					create_back_bucket();
 				BucketType* bucket = d_buckets.back().bucket;
+				T* ptr = nullptr;
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size) {
 					bucket = create_back_bucket();
+					try {
+						ptr = bucket->emplace_back(std::forward<Args>(args)...);
+					}
+					catch (...) {
+						// Do not leave an empty bucket
+						remove_back_bucket();
+						throw;
+					}
 				}
-				T* ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				else
+					ptr = bucket->emplace_back(std::forward<Args>(args)...);
 				if (StoreBackValues)
 					d_buckets.back().update();
 				d_size++;
@@ -1913,10 +1921,20 @@ namespace seq
 				if SEQ_UNLIKELY (d_buckets.empty())
 					create_back_bucket();
 				BucketType* bucket = d_buckets.front().bucket;
-				if SEQ_UNLIKELY (bucket->size == d_bucket_size)
+				T* res = nullptr;
+				if SEQ_UNLIKELY (bucket->size == d_bucket_size) {
 					bucket = create_front_bucket();
-
-				T* res = bucket->emplace_front(std::forward<Args>(args)...);
+					try {
+						res = bucket->emplace_front(std::forward<Args>(args)...);
+					}
+					catch (...) {
+						// Do not leave an empty bucket
+						remove_front_bucket();
+						throw;
+					}
+				}
+				else
+					res = bucket->emplace_front(std::forward<Args>(args)...);
 				if (StoreBackValues)
 					d_buckets.front().update();
 				d_size++;
-- 
2.43.0


From e01162c2e8cf1b1432f0f268069c6895e3d9c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 22/64] fix: cvalue_iterator calls std::terminate when copying
 the value throws

---
 seq/utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..0cebf8d 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -270,7 +270,7 @@ namespace seq
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -282,7 +282,7 @@ namespace seq
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -307,13 +307,13 @@ namespace seq
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From e025a4b8d12ac3874994fc32d77f3853c6331020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 23/64] fix: sequence iterators compare and subtract wrongly
 with the end iterator

---
 seq/sequence.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..5dc9442 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -353,6 +353,8 @@ namespace seq
 			{
 				if (it1.node == it2.node) {
 					// Same node
+					if (it1.pos == it2.pos)
+						return 0; // node might be null
 					if (it1.pos > it2.pos) {
 						return static_cast<difference_type>(popcnt64((it1.node->used & ((1ULL << it1.pos) - 1)) >> it2.pos));
 					}
@@ -469,12 +471,12 @@ namespace seq
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos)));
+			return a.node == b.node ? a.pos > b.pos : a.node->node_index > b.node->node_index;
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator<(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos)));
+			return a.node == b.node ? a.pos < b.pos : a.node->node_index < b.node->node_index;
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>=(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
@@ -779,7 +781,8 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				// The end node is after any other one
+				endNode()->node_index = LLONG_MAX;
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
@@ -879,7 +882,8 @@ namespace seq
 								if (vec_chunk && node != endNode())
 									vec_chunk->push_back(node);
 								index = 0;
-								node->node_index = static_cast<std::int64_t>(chunks++);
+								if (node != endNode())
+									node->node_index = static_cast<std::int64_t>(chunks++);
 							}
 							++it;
 						}
-- 
2.43.0


From dd0290c904363ba566b816184fc306b8b4d56096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 24/64] fix: sequence resize, resize_front and copy assignment
 to a smaller size pop too many elements

---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 5dc9442..5212359 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1288,8 +1288,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (last == d_data->end.prev && diff) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1811,8 +1813,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (last == d_data->end.prev && diff) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1938,8 +1942,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (front == d_data->end.next && diff) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From 6ec006b97501f2caf1c8cf340ee9ca2a0ba7a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 25/64] fix: sequence::sort uses a deallocated chunk after
 compacting the sequence

---
 seq/sequence.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 5212359..7aab4a0 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -796,7 +796,7 @@ namespace seq
 				if (vec_chunk) {
 					vec_chunk->clear();
 					// throw now and not later
-					vec_chunk->reserve(size / chunk_type::count);
+					vec_chunk->reserve(size / chunk_type::count + 2);
 				}
 
 				// Does nothing if the sequence is alreay compact
@@ -916,6 +916,8 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						if (vec_chunk && !vec_chunk->empty() && vec_chunk->back() == node)
+							vec_chunk->pop_back();
 					}
 
 					last->next = endNode();
-- 
2.43.0


From fb350ca3bba43643d13ed151d9039c5b49525315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 26/64] fix: sequence::shrink_to_fit keeps links to deallocated
 chunks in the list of free chunks

---
 seq/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 7aab4a0..48373f6 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -946,8 +946,11 @@ namespace seq
 				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
 				if (last->used == full)
 					endNode()->prev_free = endNode()->next_free = endNode();
-				else
+				else {
+					// The only free node
+					last->prev_free = last->next_free = endNode();
 					endNode()->prev_free = endNode()->next_free = last;
+				}
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From 524d8bffa16db6636060ba77a3e6ebb316b9c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 27/64] fix: sequence constructors leak when the construction
 of an element throws

---
 seq/sequence.hpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 48373f6..97cf08e 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1386,8 +1386,7 @@ namespace seq
 		/// @param value fill value
 		/// @param al allocator object
 		sequence(size_type count, const T& value, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count, value);
 		}
@@ -1395,8 +1394,7 @@ namespace seq
 		/// @param count initial size
 		/// @param al allocator object
 		explicit sequence(size_type count, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count);
 		}
@@ -1406,8 +1404,15 @@ namespace seq
 		  : Allocator(copy_allocator(other.get_allocator()))
 		  , d_data(nullptr)
 		{
-			if (other.size())
-				import(other);
+			if (other.size()) {
+				try {
+					import(other);
+				}
+				catch (...) {
+					clear();
+					throw;
+				}
+			}
 		}
 		/// @brief Copy constructor
 		/// @param other input sequence to copy
@@ -1416,8 +1421,15 @@ namespace seq
 		  : Allocator(al)
 		  , d_data(nullptr)
 		{
-			if (other.size())
-				import(other);
+			if (other.size()) {
+				try {
+					import(other);
+				}
+				catch (...) {
+					clear();
+					throw;
+				}
+			}
 		}
 		/// @brief Move constructor
 		sequence(sequence&& other) noexcept(std::is_nothrow_move_constructible_v<Allocator>)
@@ -1431,8 +1443,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		sequence(sequence&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_data(alloc))
+		  : sequence(alloc)
 		{
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
@@ -1445,8 +1456,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param al allocator object
 		sequence(const std::initializer_list<T>& lst, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -1457,8 +1467,7 @@ namespace seq
 		/// @param al allocator object
 		template<class Iter>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From f5169774264c34562f3eb85bdeac7f312ba162cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 28/64] fix: sequence::shrink_to_fit corrupts the list of free
 chunks when moving an element throws

---
 seq/sequence.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 97cf08e..0e61f8b 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -892,6 +892,18 @@ namespace seq
 						// Update current node bounds in case of exception
 						node->start = static_cast<int>(bit_scan_forward_64(node->used));
 						node->end = static_cast<int>(bit_scan_reverse_64(node->used)) + 1;
+						// Rebuild the list of free chunks and the chunk indexes
+						endNode()->prev_free = endNode()->next_free = endNode();
+						chunks = 0;
+						for (chunk_type* n = static_cast<chunk_type*>(endNode()->next); n != endNode(); n = static_cast<chunk_type*>(n->next)) {
+							n->node_index = static_cast<std::int64_t>(chunks++);
+							n->prev_free = n->next_free = endNode();
+							if (n->used != full) {
+								n->next_free = endNode()->next_free;
+								n->next_free->prev_free = n;
+								endNode()->next_free = n;
+							}
+						}
 						throw;
 					}
 
-- 
2.43.0


From adf89444ef76b079750d08ea7bf6bd4066243340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 29/64] fix: flat containers equal_range gives a non empty
 range for a key that is not there

---
 seq/flat_map.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..ca2eb70 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -883,24 +883,14 @@ namespace seq
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) -> std::pair<iterator, iterator>
 			{
-				iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
-				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
-				iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				auto p = equal_range_pos(x);
+				return std::pair<iterator, iterator>(d_deque.iterator_at(p.first), d_deque.iterator_at(p.second));
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) const -> std::pair<const_iterator, const_iterator>
 			{
-				const_iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
-				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
-				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				auto p = equal_range_pos(x);
+				return std::pair<const_iterator, const_iterator>(d_deque.iterator_at(p.first), d_deque.iterator_at(p.second));
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
@@ -909,7 +899,8 @@ namespace seq
 				if (low == size())
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
-					return std::pair<size_t, size_t>(low, low + 1);
+					// The range is empty if the lower bound is greater than the key
+					return std::pair<size_t, size_t>(low, (*this)(x, d_deque[low]) ? low : low + 1);
 				size_t up = upper_bound_pos(x);
 				return std::pair<size_t, size_t>(low, up);
 			}
-- 
2.43.0


From b0e05ac6b67a489063d53ba571dd7cb502793a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 30/64] fix: flat containers write past the end when inserting
 a range of non random access iterators

---
 seq/flat_map.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index ca2eb70..676782f 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -751,14 +751,12 @@ namespace seq
 					d_deque.resize(std::distance(first, last) + size_before);
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
 				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
 				else {
 					while (first != last) {
-						*dit = *first;
+						d_deque.push_back(*first);
 						++first;
-						++dit;
 					}
 				}
 
-- 
2.43.0


From 86531c09669f0f9cee0d3cb20f3243a636228b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 31/64] fix: flat containers cannot insert an initializer list

---
 seq/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 676782f..c300e37 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -775,7 +775,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
-- 
2.43.0


From d7509022ad3ec97b4c0954d6790dad46882ebcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 32/64] fix: flat containers cannot be assigned a range of non
 random access iterators

---
 seq/flat_map.hpp | 53 ++++++++++++------------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c300e37..0ce1565 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -444,54 +444,27 @@ namespace seq
 			template<class Iter, class Cat>
 			void assign_cat(Iter first, Iter last, Cat /*unused*/)
 			{
-				iterator it = d_deque.begin();
-				iterator en = d_deque.end();
 				bool sorted = true;
 				bool unique = true;
 
-				// Copy the range [first,last) to the tiered_vector using already allocated memory
-
-				Iter prev = first;
-				size_type count = 1;
-				if (d_deque.size() > 0) {
-					*it = *first;
-					++it;
-					++first;
-				}
-				else {
-					d_deque.push_back(*first);
-					++first;
-				}
-
-				while (it != en && first != last) {
-					*it = *first;
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-					}
-					++it;
-					prev = first;
-					++first;
-					++count;
-				}
-				while (first != last) {
-					push_back(*first);
-					if (sorted) {
-						if ((*this)(*first, *prev))
+				// Copy the range [first,last) to the tiered_vector using already allocated memory.
+				// Input iterators are single pass: compare the values that were stored.
+				size_type count = 0;
+				for (; first != last; ++first, ++count) {
+					if (count < d_deque.size())
+						d_deque[count] = *first;
+					else
+						d_deque.push_back(*first);
+					if (sorted && count) {
+						if ((*this)(d_deque[count], d_deque[count - 1]))
 							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
+						else if (Unique && !(*this)(d_deque[count - 1], d_deque[count]))
 							unique = false;
-						prev = first;
 					}
-
-					++first;
-					++count;
 				}
 
-				// Resize if the tiered_vector was bigger
-				resize(count);
+				// Remove the remaining values if the tiered_vector was bigger
+				d_deque.erase(count, d_deque.size());
 
 				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
-- 
2.43.0


From e524e61c0f5e31047c260d5962988b74a306d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 33/64] fix: flat containers merge does not compile and leaves
 stale search data

---
 seq/flat_map.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 0ce1565..34d316b 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -356,7 +356,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								*it_rem = std::move(*first2);
 								++it_rem;
@@ -388,7 +388,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								remaining->push_back(std::move(*first2));
 							}
@@ -876,23 +876,29 @@ namespace seq
 				return std::pair<size_t, size_t>(low, up);
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			template<class C2, bool Stable2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique>& source)
 			{
+				if (static_cast<void*>(this) == static_cast<void*>(std::addressof(source)))
+					return;
 				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
+					container_type out(get_allocator());
+					container_type rem(source.get_allocator());
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
 					d_deque = std::move(out);
 					source.d_deque = std::move(rem);
+					if (source.d_deque.manager())
+						source.d_deque.manager()->update_all_back_values();
 				}
 				else {
 					// add elements from source to this tiered_vector
 					size_t before_size = size();
 					d_deque.insert(d_deque.end(), source.begin(), source.end());
-					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
+					std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(before_size), d_deque.end(), base());
 					source.clear();
 				}
+				if (d_deque.manager())
+					d_deque.manager()->update_all_back_values();
 			}
 
 			auto begin() noexcept -> iterator { return d_deque.begin(); }
@@ -1027,6 +1033,9 @@ namespace seq
 		using flat_tree_type = detail::flat_tree<Key, Key, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
+		template<class, class, class, bool, bool>
+		friend class flat_set;
+
 		using Policy = detail::BuildValue<Key, has_is_transparent<Compare>::value>;
 
 	public:
@@ -1461,8 +1470,8 @@ namespace seq
 		/// @brief Attempts to extract each element in source and insert it into this using the comparison object of this.
 		/// If there is an element in this with key equivalent to the key of an element from source, then that element is not extracted from source.
 		/// Note that elements from source are moved to this.
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator>& source)
+		template<class C2, bool S2>
+		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator, S2, Unique>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
@@ -2033,8 +2042,8 @@ namespace seq
 		}
 		SEQ_ALWAYS_INLINE auto equal_range_pos(const Key& x) const -> std::pair<size_t, size_t> { return d_tree.equal_range_pos(x); }
 
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator>& source)
+		template<class C2, bool S2>
+		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator, S2, Unique>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
-- 
2.43.0


From 32b06da281f3cd854fd21e2bcf10841b871d3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 34/64] fix: erase_if dereferences a null pointer for an empty
 flat container

---
 seq/flat_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 34d316b..244d270 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -2257,7 +2257,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
@@ -2292,7 +2293,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
-- 
2.43.0


From ff2e96e9e58953f77983967041874e6d5b712eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 35/64] fix: flat_map merge needs access to the source

---
 seq/flat_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 244d270..eab4261 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1662,6 +1662,9 @@ namespace seq
 		using flat_tree_type = detail::flat_tree<Key, std::pair<Key, T>, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
+		template<class, class, class, class, bool, bool>
+		friend class flat_map;
+
 		using Policy = detail::BuildValue<std::pair<Key, T>, has_is_transparent<Compare>::value>;
 
 	public:
-- 
2.43.0


From 6a1dbf5d9fe806fe8da52851f3356fccd4deae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 36/64] fix: ordered_set/map rehash after direct modifications
 writes past the buckets

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..eb18b53 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -429,7 +429,7 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-- 
2.43.0


From 14bbf452ca39aac3a830ecb2020ca1a91d1b3041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 37/64] fix: ordered_set/map copy assignment keeps stale
 buckets and the previous hash function

---
 seq/ordered_map.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index eb18b53..a09cc81 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1162,11 +1162,13 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
+				static_cast<detail::HashEqual<Hash, KeyEqual>&>(*this) = static_cast<const detail::HashEqual<Hash, KeyEqual>&>(other);
 				this->d_seq = other.sequence();
 				if (other.dirty())
 					this->mark_dirty();
 				max_load_factor(other.max_load_factor());
-				rehash();
+				// The buckets must be rebuilt even if the number of buckets does not change
+				this->base_type::rehash(0, true);
 			}
 			return *this;
 		}
@@ -1628,11 +1630,13 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
+				static_cast<detail::HashEqual<Hash, KeyEqual>&>(*this) = static_cast<const detail::HashEqual<Hash, KeyEqual>&>(other);
 				this->d_seq = other.sequence();
 				if (other.dirty())
 					this->mark_dirty();
 				max_load_factor(other.max_load_factor());
-				rehash();
+				// The buckets must be rebuilt even if the number of buckets does not change
+				this->base_type::rehash(0, true);
 			}
 			return *this;
 		}
-- 
2.43.0


From eb0fc5ebe27976f95e44fba68bb0dba40ca4d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 38/64] fix: ordered_set/map swap exchanges the hash functions
 twice

---
 seq/ordered_map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index a09cc81..9a519dc 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -544,7 +544,6 @@ namespace seq
 					std::swap(d_max_dist, other.d_max_dist);
 					std::swap(d_load_factor, other.d_load_factor);
 					d_seq.swap(other.d_seq);
-					base_type::swap(other);
 				}
 			}
 
-- 
2.43.0


From 2d3766224021ec1f1e2ac706a13c032321b9e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 39/64] fix: ordered_set/map with linear probing inserts
 duplicates and loops forever after erasures

---
 seq/ordered_map.hpp | 46 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 9a519dc..c1fa8f6 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -633,6 +633,23 @@ namespace seq
 				return d_hash_mask + 1;
 			}
 
+			template<class K>
+			SEQ_NOINLINE(auto)
+			find_linear(size_t hash, const K& key) const -> const_iterator
+			{
+				// Key lookup using linear probing.
+				// There might be no empty node to break the probe chain (tombstones only).
+				const tiny_hash h = node_type::small_hash(hash);
+				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
+				for (size_t i = 0; i < bucket_size() && d_buckets[index].distance() != -1; ++i) {
+					const node_type& n = d_buckets[index];
+					if (h == n.hash() && (*this)(extract_key::key(sequence_node_value(n)), key))
+						return const_iterator(n.node(), n.pos());
+					index = index == d_hash_mask ? 0 : index + 1;
+				}
+				return d_seq.end();
+			}
+
 			template<class K>
 			SEQ_ALWAYS_INLINE auto find_hash(size_t hash, const K& key) const -> const_iterator
 			{
@@ -650,16 +667,17 @@ namespace seq
 				// (it is superior to node_type::max_distance which is 126, and dist is never incremented when tombstones are present: linear situation)
 				// A tombstone value is never checked as its tiny hash is 0 (which is invalid).
 
-				if SEQ_UNLIKELY(!robin_hood)
+				if SEQ_UNLIKELY(!robin_hood) {
 					check_hash_operation();
+					return find_linear(hash, key);
+				}
 
 				while (!(dist > it->distance())) {
 					// Check for equality (first the hash part and then the key itself).
 					if (h == it->hash() && (*this)(extract_key::key(sequence_node_value(*it)), key))
 						return const_iterator(it->node(), it->pos());
 					it = it == end ? d_buckets : it + 1;
-					if SEQ_LIKELY(robin_hood)
-						++dist;
+					++dist;
 				}
 				// Failed lookup
 				return d_seq.end();
@@ -681,13 +699,27 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
-				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
-						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
+				// Pure linear hashing.
+				// The key might be located after a tombstone, and the table might contain tombstones only.
+				const size_t null_index = bucket_size();
+				size_t insert_index = null_index;
+				for (size_t i = 0; i < bucket_size(); ++i) {
+					const node_type& n = d_buckets[index];
+					if (n.is_tombstone()) {
+						if (insert_index == null_index)
+							insert_index = index;
+					}
+					else if (n.null()) {
+						if (insert_index == null_index)
+							insert_index = index;
+						break;
+					}
+					else if (n.hash() == h && (*this)(extract_key::key(sequence_node_value(n)), extract_key::key(key)))
+						return std::pair<iterator, bool>(iterator(n.node(), n.pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
+				index = insert_index;
 
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
 				d_buckets[index] = node_type(h, index == mask_hash(hash, d_hash_mask, d_hash_len) ? 0 : node_type::max_distance, tmp_it.as_uint());
-- 
2.43.0


From fcf462814d81fc463639a130dfce776def6fcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 40/64] fix: ordered_set/map rehash for less buckets than
 elements never ends

---
 seq/ordered_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index c1fa8f6..90a4b8c 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -578,8 +578,10 @@ namespace seq
 
 				const bool null_size = (size == 0);
 
-				if (null_size)
-					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				// The buckets must at least contain all the values
+				const size_t min_size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				if (size < min_size)
+					size = min_size;
 				if (size == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
 				size_t new_hash_mask;
-- 
2.43.0


From 842c42ce05190dfd5cd795aabeb90532f4980832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 41/64] fix: ordered_map insert with a hint returns a pair
 instead of an iterator

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 90a4b8c..3b2e096 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1785,7 +1785,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
-- 
2.43.0


From cc2ca36c5467592557a3fb3c0fc5c38ee650fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 42/64] fix: upper_bound swaps its template arguments

---
 seq/internal/binary_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/binary_search.hpp b/seq/internal/binary_search.hpp
index 4668ead..93a2135 100644
--- a/seq/internal/binary_search.hpp
+++ b/seq/internal/binary_search.hpp
@@ -116,7 +116,7 @@ namespace seq
 	template<bool Multi, class Key, class Iter, class SizeType, class U, class Le>
 	SEQ_ALWAYS_INLINE SizeType upper_bound(Iter ptr, SizeType size, const U& value, const Le& le)
 	{
-		return lower_bound<Key, Multi>(ptr, size, value, [&le](const auto& a, const auto& b) { return !le(b, a); }).first;
+		return lower_bound<Multi, Key>(ptr, size, value, [&le](const auto& a, const auto& b) { return !le(b, a); }).first;
 	}
 
 } // end seq
-- 
2.43.0


From fa6cebbeaa3770ba590e3ce76339abe6f3cc7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 43/64] fix: ordered_set/map rehash for one bucket calls
 bit_scan_reverse_64 with 0

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 3b2e096..948590b 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -590,7 +590,7 @@ namespace seq
 					new_hash_mask = size - 1ULL;
 				else
 					new_hash_mask = (1ULL << (1ULL + (bit_scan_reverse_64(size)))) - 1ULL;
-				new_hash_len = bit_scan_reverse_64(new_hash_mask) + 1U;
+				new_hash_len = new_hash_mask ? bit_scan_reverse_64(new_hash_mask) + 1U : 0U;
 				if (dirty())
 					rehash_remove_duplicates(new_hash_mask, new_hash_len, d_seq.begin(), d_seq.end());
 				else if (force || new_hash_mask != d_hash_mask || d_max_dist == node_type::max_distance) {
-- 
2.43.0


From 3fdfd921a452dcb4d987e52293ac9c2ac713440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 44/64] fix: radix_hash_set/map reserve calls
 bit_scan_reverse_64 with 0

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..6428eac 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2046,7 +2046,7 @@ namespace seq
 
 				// Update its root size
 				capacity = (capacity / (node::max_capacity));
-				unsigned bits = bit_scan_reverse_64(capacity) + 1;
+				unsigned bits = capacity ? bit_scan_reverse_64(capacity) + 1U : 1U;
 				bits = std::min(bits, 26U); // maximum 26 bits for a directory
 				other.make_data(bits);
 
-- 
2.43.0


From 884f07662584b3bbedeccfb92afbd6a031d8e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 45/64] fix: radix_set/map merge does not compile

---
 seq/internal/radix_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 6428eac..8423e15 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1989,9 +1989,11 @@ namespace seq
 			{
 				SEQ_ASSERT_DEBUG(get_allocator() == other.get_allocator(), "");
 
+				if (this == std::addressof(other))
+					return;
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					if (this->emplace(std::move(const_cast<value_type&>(*it))).second)
 						it = other.erase(it);
 					else
 						++it;
-- 
2.43.0


From b48314da0c2b920973c93b2100d70db003bdfae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 46/64] fix: radix_hash_map comparison depends on the insertion
 order of colliding keys

---
 seq/radix_hash_map.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..e74643a 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -876,16 +876,15 @@ namespace seq
 		}
 	};
 
-	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
+	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 is found in s2 with the same mapped value. Element ordering is not considered.
 	template<class Key, class T, class Hash, class Equal, class L1, class L2, class Al1, class Al2>
 	auto operator==(const radix_hash_map<Key, T, Hash, Equal, Al1, L1>& s1, const radix_hash_map<Key, T, Hash, Equal, Al2, L2>& s2) -> bool
 	{
-		using value_type_extract = typename radix_hash_map<Key, T, Hash, Equal, Al1, L1>::value_type_extract;
 		if (s1.size() != s2.size())
 			return false;
-		auto it1 = s1.begin();
-		for (auto it2 = s2.begin(); it2 != s2.end(); ++it2, ++it1) {
-			if (value_type_extract{}(*it1) != value_type_extract{}(*it2) || it1->second != it2->second)
+		for (auto it1 = s1.begin(); it1 != s1.end(); ++it1) {
+			auto it2 = s2.find(it1->first);
+			if (it2 == s2.end() || it1->second != it2->second)
 				return false;
 		}
 		return true;
-- 
2.43.0


From 6232e9b0444c4b0218816d3ca620fbfdbb7c49a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 47/64] fix: net_sort is not stable

---
 seq/algorithm.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..5913079 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -838,11 +838,17 @@ namespace seq
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
+			// Odd-even transposition network: it only exchanges neighbors, which keeps the order of equal values
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+			CHECK_2(5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+			CHECK_2(5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+			CHECK_2(5, 6);
 			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
 			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
 			CHECK_2(5, 6);
 		}
-- 
2.43.0


From e9c0129ee43f6baf2cccf1607d2a29fa0fcdb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 48/64] fix: flat_multiset/multimap assignment of an
 initializer_list and sorted insertion do not compile

---
 seq/flat_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index eab4261..c90d198 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1601,7 +1601,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -1619,11 +1619,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
@@ -2166,7 +2166,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From b874f88fb4a0dbfe6f69f95ee8dcb02f308278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 49/64] fix: looking up a key in an emptied flat container
 reads a destroyed key

---
 seq/flat_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c90d198..f14004a 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,8 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			// An emptied tiered_vector might keep a bucket, whose back value is not valid
+			if SEQ_UNLIKELY (d.empty())
 				return { 0, false };
 
 			using T = typename Deque::value_type;
-- 
2.43.0


From 24bcd26c5461d75a16ae9de93a2dc4574f988d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 50/64] fix: sorting a flat container uses the number of
 buckets from before the front bucket was filled

---
 seq/tiered_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 06ebe61..b38695a 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2476,7 +2476,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
 
 				size_t size_before = 0;
 				if (bucket_idx)
@@ -2506,6 +2505,8 @@ namespace seq
 				// Create buffer to sort buckets
 				std::vector<T> buf(count / 2);
 
+				// Filling the front bucket might have removed the back one
+				const size_t bucket_count = d_buckets.size() - bucket_idx;
 				std::vector<iterator> iters(bucket_count + 1);
 				iters[0] = iterator(this, d_buckets.data() + bucket_idx, 0);
 
-- 
2.43.0


From 58707ed222d73ecc7489f4a94eeeb744ecc9aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 51/64] fix: ordered_map and radix_hash_map cannot erase an
 iterator with transparent functors

---
 seq/ordered_map.hpp    | 1 +
 seq/radix_hash_map.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 948590b..b325c3f 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1995,6 +1995,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](Key&& k) -> T& { return try_emplace(std::move(k)).first->second; }
 
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return this->base_type::erase(pos); }
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return this->base_type::erase(const_iterator(pos)); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return this->base_type::erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
 		SEQ_ALWAYS_INLINE auto erase(const K& key) -> size_type
diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index e74643a..13e0311 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -836,6 +836,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](const Key& key) -> T& { return try_emplace(key).first->second; }
 		SEQ_ALWAYS_INLINE auto operator[](Key&& key) -> T& { return try_emplace(std::move(key)).first->second; }
 
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return d_tree.erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
-- 
2.43.0


From 5396ed24242fbda8638fe4bb2c45d2ac220bc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 52/64] fix: copying an ordered_set/map of one element does not
 build its hash table

---
 seq/ordered_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index b325c3f..27ff9f9 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -573,7 +573,7 @@ namespace seq
 			{
 				// Rehash for given size if one of the following is true:
 				// - the hash table is dirty
-				// - the new hash table size is different from the current one
+				// - the new hash table size is different from the current one, or there is no hash table yet
 				// - force is true
 
 				const bool null_size = (size == 0);
@@ -593,7 +593,7 @@ namespace seq
 				new_hash_len = new_hash_mask ? bit_scan_reverse_64(new_hash_mask) + 1U : 0U;
 				if (dirty())
 					rehash_remove_duplicates(new_hash_mask, new_hash_len, d_seq.begin(), d_seq.end());
-				else if (force || new_hash_mask != d_hash_mask || d_max_dist == node_type::max_distance) {
+				else if (force || d_buckets == null_node() || new_hash_mask != d_hash_mask || d_max_dist == node_type::max_distance) {
 					if (d_max_dist == node_type::max_distance && null_size) {
 						// linear hashing behavior: make sure to increase hash table size
 						new_hash_mask = ((new_hash_mask + 1U) * 2U) - 1U;
-- 
2.43.0


From d95c0992642da66bb248f499d69e80fe4327d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 53/64] fix: flat containers are not sorted anymore when
 inserting or assigning a range throws

---
 seq/flat_map.hpp | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index f14004a..6e0f153 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -720,19 +720,26 @@ namespace seq
 
 				size_t size_before = d_deque.size();
 
-				if constexpr (is_random_access_v<InputIt>)
-					// Resize tiered_vector
-					d_deque.resize(std::distance(first, last) + size_before);
-
-				// Append input to tiered_vector
-				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
-				else {
-					while (first != last) {
-						d_deque.push_back(*first);
-						++first;
+				try {
+					if constexpr (is_random_access_v<InputIt>)
+						// Resize tiered_vector
+						d_deque.resize(std::distance(first, last) + size_before);
+
+					// Append input to tiered_vector
+					if constexpr (is_random_access_v<InputIt>)
+						std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
+					else {
+						while (first != last) {
+							d_deque.push_back(*first);
+							++first;
+						}
 					}
 				}
+				catch (...) {
+					// Do not leave unsorted values
+					d_deque.erase(size_before, d_deque.size());
+					throw;
+				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
 					// Sort new values
@@ -757,6 +764,18 @@ namespace seq
 
 			template<class Iter>
 			void assign(Iter first, Iter last)
+			{
+				try {
+					assign_range(first, last);
+				}
+				catch (...) {
+					// Do not leave unsorted values
+					d_deque.clear();
+					throw;
+				}
+			}
+			template<class Iter>
+			void assign_range(Iter first, Iter last)
 			{
 				if (first == last) {
 					d_deque.clear();
-- 
2.43.0


From 619e379bfeadedc82dc02699690f377f9a21907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 54/64] fix: the buckets of an ordered_set/map do not match its
 values when a copy assignment throws

---
 seq/ordered_map.hpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 27ff9f9..2db90e4 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1196,12 +1196,19 @@ namespace seq
 		{
 			if (this != std::addressof(other)) {
 				static_cast<detail::HashEqual<Hash, KeyEqual>&>(*this) = static_cast<const detail::HashEqual<Hash, KeyEqual>&>(other);
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				// The buckets must be rebuilt even if the number of buckets does not change
-				this->base_type::rehash(0, true);
+				try {
+					this->d_seq = other.sequence();
+					if (other.dirty())
+						this->mark_dirty();
+					max_load_factor(other.max_load_factor());
+					// The buckets must be rebuilt even if the number of buckets does not change
+					this->base_type::rehash(0, true);
+				}
+				catch (...) {
+					// The buckets do not match the values
+					clear();
+					throw;
+				}
 			}
 			return *this;
 		}
@@ -1664,12 +1671,19 @@ namespace seq
 		{
 			if (this != std::addressof(other)) {
 				static_cast<detail::HashEqual<Hash, KeyEqual>&>(*this) = static_cast<const detail::HashEqual<Hash, KeyEqual>&>(other);
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				// The buckets must be rebuilt even if the number of buckets does not change
-				this->base_type::rehash(0, true);
+				try {
+					this->d_seq = other.sequence();
+					if (other.dirty())
+						this->mark_dirty();
+					max_load_factor(other.max_load_factor());
+					// The buckets must be rebuilt even if the number of buckets does not change
+					this->base_type::rehash(0, true);
+				}
+				catch (...) {
+					// The buckets do not match the values
+					clear();
+					throw;
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From f12413b2a998e90674a16dd16105f215f15024cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 55/64] fix: radix containers leak or leave unsorted leaves
 when the insertion of a range throws

---
 seq/internal/radix_tree.hpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 8423e15..be43432 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1902,19 +1902,13 @@ namespace seq
 			}
 
 			RadixTree(const RadixTree& other)
-			  : Hash(other)
-			  , Allocator(copy_allocator(other.get_allocator()))
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), copy_allocator(other.get_allocator())) // destroys the values if insert() throws
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
 			}
 			RadixTree(const RadixTree& other, const Allocator& al)
-			  : Hash(other)
-			  , Allocator(al)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), al)
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
@@ -1929,10 +1923,7 @@ namespace seq
 				swap(other, false);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
-			  : Hash(other)
-			  , Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), alloc)
 			{
 				if (alloc == other.get_allocator())
 					swap(other, false);
@@ -1942,9 +1933,7 @@ namespace seq
 
 			template<class Iter>
 			RadixTree(Iter first, Iter last, const Allocator& alloc = Allocator())
-			  : Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(alloc)
 			{
 				insert(first, last);
 			}
@@ -2878,8 +2867,16 @@ namespace seq
 					return;
 
 				const_iterator it = this->end();
-				for (; start != end; ++start) {
-					it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+				try {
+					for (; start != end; ++start) {
+						it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+					}
+				}
+				catch (...) {
+					// Do not leave unsorted leaves
+					if (is_sorted && _sort_leaves)
+						sort_leaves();
+					throw;
 				}
 				if (is_sorted && _sort_leaves)
 					sort_leaves();
-- 
2.43.0


From a28e8e670bb57f46c258cded34362cc8142a25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 56/64] fix: flat containers are not sorted anymore when
 sorting an inserted range throws

---
 seq/flat_map.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 6e0f153..1fb1b21 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -720,6 +720,7 @@ namespace seq
 
 				size_t size_before = d_deque.size();
 
+				bool appended = false;
 				try {
 					if constexpr (is_random_access_v<InputIt>)
 						// Resize tiered_vector
@@ -734,17 +735,21 @@ namespace seq
 							++first;
 						}
 					}
+					appended = true;
+
+					if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
+						// Sort new values
+						size_before = sort_deque<Stable>(d_deque, size_before, base());
 				}
 				catch (...) {
 					// Do not leave unsorted values
-					d_deque.erase(size_before, d_deque.size());
+					if (appended)
+						d_deque.clear();
+					else
+						d_deque.erase(size_before, d_deque.size());
 					throw;
 				}
 
-				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
-					// Sort new values
-					size_before = sort_deque<Stable>(d_deque, size_before, base());
-
 				// Merge
 				std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(size_before), d_deque.end(), base());
 
-- 
2.43.0


From f84c8806f016e965397072ef97a4387f7e5f841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 57/64] fix: an insertion that throws in a radix leaf destroys
 an existing value

---
 seq/internal/radix_tree.hpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index be43432..c5e66cd 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -766,22 +766,27 @@ namespace seq
 				}
 			}
 			else {
-				try {
-					if (count) {
-						new (dst + count - 1) U();
+				if (count) {
+					// Build the new value first: if this throws, nothing has moved
+					alignas(U) char storage[sizeof(U)];
+					U* tmp = Policy::emplace(reinterpret_cast<U*>(storage), std::forward<Args>(args)...);
+					U* last = nullptr;
+					try {
+						last = new (dst + count - 1) U();
 						std::move_backward(src, src + count, dst + count);
-						src->~U();
-						Policy::emplace(src, std::forward<Args>(args)...);
+						*src = std::move(*tmp);
 					}
-					else
-						Policy::emplace(src, std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// destroy created element
-					if (count)
-						(dst + count - 1)->~U();
-					throw;
+					catch (...) {
+						// destroy created elements
+						if (last)
+							last->~U();
+						tmp->~U();
+						throw;
+					}
+					tmp->~U();
 				}
+				else
+					Policy::emplace(src, std::forward<Args>(args)...);
 			}
 		}
 
@@ -1057,8 +1062,9 @@ namespace seq
 				}
 
 				if (Sorted && pos != size) {
-					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
+					// might throw, fine
 					insert_move_right(values() + pos + 1, values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
 				}
 				else {
 					Policy::emplace((values() + size), std::forward<K>(key), std::forward<Args>(args)...);
-- 
2.43.0


From bd65e7a0062910359ec730db4cdfede2c74ee710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 58/64] fix: an insertion in a radix leaf default constructs a
 value, which might throw

---
 seq/internal/radix_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index c5e66cd..152cb38 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -772,8 +772,8 @@ namespace seq
 					U* tmp = Policy::emplace(reinterpret_cast<U*>(storage), std::forward<Args>(args)...);
 					U* last = nullptr;
 					try {
-						last = new (dst + count - 1) U();
-						std::move_backward(src, src + count, dst + count);
+						last = new (dst + count - 1) U(std::move(src[count - 1]));
+						std::move_backward(src, src + count - 1, dst + count - 1);
 						*src = std::move(*tmp);
 					}
 					catch (...) {
-- 
2.43.0


From 3ffb7223ce1be4c97aba92a826487b7d7e300817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 59/64] fix: an unbalanced inplace merge moves the end of the
 last range onto itself

---
 seq/algorithm.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 5913079..1ddb036 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -364,16 +364,20 @@ namespace seq
 				else if (s2 * 32 < s1) {
 					// Right is way smaller than left
 					for (; first2 != end2; ++first2) {
-						if (first1 != end1) {
-							while (first2 != end2 && c(*first2, *first1))
-								*out++ = (*first2++);
-							if (first2 == end2)
-								break;
-
-							auto found = std::upper_bound(first1, end1, *first2, c);
-							out = copy_internal(first1, found, out);
-							first1 = found;
-						}
+						// Do not move the remaining elements
+						// of the last range onto themselves
+						if (first1 == end1)
+							break;
+						while (first2 != end2 && c(*first2, *first1))
+							*out++ = (*first2++);
+						if (first2 == end2)
+							break;
+
+						auto found = std::upper_bound(first1, end1, *first2, c);
+						out = copy_internal(first1, found, out);
+						first1 = found;
+						if (first1 == end1)
+							break;
 						*out++ = (*first2);
 					}
 					goto end;
-- 
2.43.0


From 557d35bda50ccef05d5a76a86f0fe2a98a71a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 60/64] fix: values of a radix leaf are misaligned

---
 seq/internal/radix_tree.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 152cb38..57793b7 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -925,8 +925,12 @@ namespace seq
 			// maximum capacity (and size), lower for sorted elements
 			static constexpr unsigned max_capacity = Sorted ? 64 : 96;
 
-			// returns size of header and tiny hash values
-			static unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept { return header_size + capacity; }
+			// returns size of header and tiny hash values, including the padding required to properly align the values
+			static SEQ_ALWAYS_INLINE unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept
+			{
+				constexpr unsigned align = static_cast<unsigned>(alignof(T));
+				return (header_size + capacity + (align - 1u)) & ~(align - 1u);
+			}
 			// returns the capacity for a given size
 			static unsigned capacity_for_size(unsigned size) noexcept
 			{
@@ -953,8 +957,11 @@ namespace seq
 			SEQ_ALWAYS_INLINE const std::uint8_t* hashs() const noexcept { return reinterpret_cast<const std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE std::uint8_t* hashs() noexcept { return reinterpret_cast<std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE unsigned count() const noexcept { return *size(); }
-			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(hashs() + *capacity()); }
-			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(hashs() + *capacity()); }
+			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(reinterpret_cast<std::uint8_t*>(this) + hash_for_size(0, *capacity())); }
+			SEQ_ALWAYS_INLINE const T* values() const noexcept
+			{
+				return reinterpret_cast<const T*>(reinterpret_cast<const std::uint8_t*>(this) + hash_for_size(0, *capacity()));
+			}
 			SEQ_ALWAYS_INLINE const T& back() const noexcept { return values()[count() - 1]; }
 			SEQ_ALWAYS_INLINE std::uint8_t get_tiny_hash(unsigned pos) const { return hashs()[pos]; }
 
-- 
2.43.0


From 44520c269170d3a4f42d8410368255b244582179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 61/64] fix: erasing the last element of a radix vector node
 leaks the node

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 57793b7..5e554a6 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3056,7 +3056,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From 07455ce7b1a0708b737ce2ec06951a8900a6ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 62/64] fix: wrong radix bits for arrays of 8 bytes or signed
 elements

---
 seq/internal/radix_tree.hpp | 52 ++++++++++---------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 5e554a6..1afc769 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -356,11 +356,10 @@ namespace seq
 				if SEQ_UNLIKELY (count == 0)
 					return 0;
 
-				size_t byte_offset = shift >> 3u;
-				size_t bit_offset = (shift) & 7U;
-
 				if constexpr (sizeof(type) == 1) {
 					// One byte: string
+					size_t byte_offset = shift >> 3u;
+					size_t bit_offset = (shift) & 7U;
 					uint64_t hash = 0;
 					if (size >= byte_offset + 8u)
 						memcpy(&hash, data + byte_offset, 8u);
@@ -369,43 +368,20 @@ namespace seq
 					return static_cast<unsigned>((swap_b(hash) << bit_offset) >> (64u - count));
 				}
 				else {
+					// Gather the bits of the elements, the most significant ones first.
+					// Bits after the last element are null.
+					constexpr size_t elem_bits = sizeof(type) * 8u;
+					const size_t char_offset = shift / elem_bits;
+					const size_t elem_offset = shift % elem_bits;
 					uint64_t hash = 0;
-					size_t char_offset = byte_offset / sizeof(type);
-					byte_offset = (byte_offset) % sizeof(type);
-
-					if (size >= char_offset + 8U / sizeof(type))
-						memcpy(&hash, data + char_offset, 8U);
-					else if (char_offset < size)
-						memcpy(&hash, data + char_offset, static_cast<size_t>((size - char_offset) * sizeof(type)));
-
-					// That's easier in big endian as all the bytes
-					// are already in the right order...
-					using unsigned_type = typename RadixHasher<type>::integral_type;
-					type* p = reinterpret_cast<type*>(&hash);
-					unsigned_type* up = reinterpret_cast<unsigned_type*>(&hash);
-					static_assert(!std::is_const_v<T>, " const type!");
-					if constexpr (sizeof(type) == 2) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						up[2] = swap_b(to_uint(p[2]));
-						up[3] = swap_b(to_uint(p[3]));
-						hash = swap_b(hash);
-					}
-					else if constexpr (sizeof(type) == 4) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						hash = swap_b(hash);
-					}
-					else {
-						// no byte swap here, just plain old bits manipulation
-						up[0] = to_uint(p[0]);
-						if (shift > 32 && (char_offset + 1) < size) {
-							auto hash2 = to_uint(data[char_offset + 1]);
-							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
-							return static_cast<unsigned>((hash << bit_offset) >> (64u - count));
-						}
+					for (size_t i = 0; i < 64u / elem_bits && char_offset + i < size; ++i)
+						hash |= static_cast<uint64_t>(to_uint(data[char_offset + i])) << (64u - elem_bits * (i + 1u));
+					hash <<= elem_offset;
+					if constexpr (elem_bits == 64u) {
+						if (elem_offset != 0 && char_offset + 1u < size)
+							hash |= static_cast<uint64_t>(to_uint(data[char_offset + 1u])) >> (64u - elem_offset);
 					}
-					return static_cast<unsigned>((hash << ((byte_offset << 3u) + bit_offset)) >> (64u - count));
+					return static_cast<unsigned>(hash >> (64u - count));
 				}
 			}
 
-- 
2.43.0


From 4e9f28b94341d071192df2c73f637ed06cc85372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 63/64] fix: try_emplace moves from its arguments when the key
 already exists in a radix vector node

---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 1afc769..8be25ca 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -669,6 +669,10 @@ namespace seq
 			template<class Vector, class K, class... Args>
 			static std::pair<size_t, bool> emplace_vector(Vector& v, K&& key, Args&&... args)
 			{
+				// Do not move from the key and arguments if the key already exists
+				size_t found = v.find(key);
+				if (found != v.size())
+					return std::pair<size_t, bool>(found, false);
 				return v.emplace(
 				  typename Vector::value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...)));
 			}
-- 
2.43.0


From b2a519bc5ba6b29a8cde911c07bab19201187990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 64/64] fix: unique compares elements that were moved from;
 debug check of merge_adaptive_n ignores the comparator

---
 seq/algorithm.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 1ddb036..37015eb 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -646,7 +646,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
@@ -1429,10 +1429,10 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
-				continue;
-			}
-			*loc++ = std::move(*first);
+			*loc = std::move(*first);
+			// The table must only reference the kept elements
+			if (set.emplace(std::addressof(*loc)))
+				++loc;
 		}
 		return loc;
 	}
-- 
2.43.0

