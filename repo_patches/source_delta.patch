From 279cd57850a2dae95a779b629c72025c02c7aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 01/28] fix: post() called the removed encodeCrc function and
 always threw

Compute the CRC32 and the encoded body with the native functions instead.
---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 9be2d49..4ef554a 100644
--- a/index.js
+++ b/index.js
@@ -199,12 +199,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From 66f332bb09609e27cddcf001bc37bdc20e300b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 02/28] fix: strip every CR, LF and NUL from filenames, not
 just the sequence CR LF NUL

A filename with a line break could otherwise inject lines into the post.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 4ef554a..c19ac32 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From da25c072add227aa40736f87a501360b49fa05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 03/28] fix: honour the `encoding` setting for filenames

`exports` no longer refers to the exported object after module.exports is
reassigned, and `this` need not be it either.
---
 index.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index c19ac32..079dec8 100644
--- a/index.js
+++ b/index.js
@@ -198,7 +198,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -234,7 +234,7 @@ module.exports = {
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
+			var line = bufferSlice.call(data, sp, p).toString(module.exports.encoding).trim();
 			lines.push(line);
 			sp = p+2;
 			if(line.substring(0, 6) == '=yend ') { // no data in post
@@ -268,7 +268,7 @@ module.exports = {
 				ret.yencEnd = p;
 			} else
 				ret.yencEnd = p+2;
-			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(this.encoding).trim();
+			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(module.exports.encoding).trim();
 			
 			warnings = warnings.concat(decoderParseLines([endLine], ydata));
 		}
@@ -363,7 +363,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From aee1133d046a53d59c4dde90b24211b6232d552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 04/28] fix: decodeChunk threw a ReferenceError when given a
 longer or unknown state

The fallback loop incremented an undeclared variable.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 079dec8..0402e1b 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From 17ba6f027d4f3657f75f80dc9ce69cc90a744df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 05/28] fix: decodeChunk ignored the output buffer when passed
 in the documented position

README documents decodeChunk(data, state, output); the output-first order
continues to work.
---
 index.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 0402e1b..b05231f 100644
--- a/index.js
+++ b/index.js
@@ -132,9 +132,11 @@ module.exports = {
 	
 	decodeChunk: function(data, output, prev) {
 		// both output and prev are optional
-		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
+		if(!Buffer.isBuffer(output) && (typeof output !== 'undefined' || Buffer.isBuffer(prev))) {
+			// state was supplied before output
+			var outputArg = prev;
 			prev = output;
-			output = null;
+			output = Buffer.isBuffer(outputArg) ? outputArg : null;
 		}
 		if(prev === null || typeof prev === 'undefined')
 			prev = '\r\n';
-- 
2.43.0


From 9ac892e7262e99e7a168a9678ce4616ead392946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 06/28] fix: decodeChunk of an empty chunk dropped the output
 buffer and returned a non-boolean `ended`

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index b05231f..c23084c 100644
--- a/index.js
+++ b/index.js
@@ -147,8 +147,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From 8fcfd7f0637eb35899153c8c98c8b135a6ee6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 07/28] fix: minSize over-counted newlines when the data ends
 exactly at a line end

No newline follows the last line, so minSize exceeded the real encoded size.
---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index c23084c..8c1c3ea 100644
--- a/index.js
+++ b/index.js
@@ -173,7 +173,7 @@ module.exports = {
 	minSize: function(length, line_size) {
 		if(!length) return 0;
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / (line_size||128)); // newlines (none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0


From 7c3ef086908de88fda797dc59494fd22cd757a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 08/28] fix: a failed YEncoder.encode call must not alter the
 encoder

The part number and running CRC were updated before the checks which throw,
so the call could not be retried.
---
 index.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 8c1c3ea..8445fa8 100644
--- a/index.js
+++ b/index.js
@@ -386,20 +386,22 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		var part = this.part+1;
+		if(part > this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
 		
+		if(part == this.parts && end != this.size)
+			throw new Error('File size doesn\'t match total data length');
+		
+		this.part = part;
 		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
 		this.crc = y.crc32_combine(this.crc, crc, data.length);
 		if(this.part == this.parts) {
 			// final part treated slightly differently
-			if(end != this.size)
-				throw new Error('File size doesn\'t match total data length');
 			fullCrc = ' crc32='+this.crc.toString('hex');
 			this.yInfo = null;
 		}
-- 
2.43.0


From 6cfaf3853e6aae3a3914d534f054500596ffe858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 09/28] fix: from_post mistook Object.prototype members for
 duplicate lines/properties

Names such as `constructor` gave bogus duplicate warnings and `__proto__` was lost.
---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 8445fa8..492b398 100644
--- a/index.js
+++ b/index.js
@@ -75,7 +75,7 @@ else
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
-		var yprops = {};
+		var yprops = Object.create(null);
 		
 		var line = lines[i].substring(2); // cut off '=y'
 		// parse tag
@@ -253,7 +253,7 @@ module.exports = {
 		if(!ret.dataStart && !ret.yencEnd) // reached end of data but '=yend' not found
 			return DecoderError('no_end_found', 'yEnd end marker not found');
 		
-		var ydata = {};
+		var ydata = Object.create(null);
 		var warnings = decoderParseLines(lines, ydata);
 		
 		if(!ret.yencEnd) {
-- 
2.43.0


From 646021be85b372814d87d2022b5cedbbbd63c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 10/28] fix: decodeTo must throw if the output buffer is too
 small

README documents an error; 0 was returned instead.
---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..be6e5b8 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -266,7 +266,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From fda25df189f6b1e70da09f83dc607a99435a22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 11/28] fix: return correct lengths for 2GiB or more of output

Integer::New takes a 32-bit value, so larger lengths wrapped around.
---
 src/yencode.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index be6e5b8..0087e5e 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -166,7 +166,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 FUNC(EncodeIncr) {
@@ -223,7 +223,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		result = (unsigned char*)realloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -273,7 +273,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( Number::New(ISOLATE (double)len) );
 }
 
 
@@ -320,8 +320,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
+	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From 4848b1ddca3865bea38919ec1c42f558f77ce44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 12/28] fix: crc32_zeroes and crc32_shift truncated the length
 to 32 bits

The README example (shift by len2*8) failed from 256MiB on.
---
 src/yencode.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 0087e5e..ae78dac 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -400,9 +400,9 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
-		crc1 = crc32_unzero(crc1, -len);
+		crc1 = crc32_unzero(crc1, -(uint64_t)len);
 	else
 		crc1 = crc32_zeros(crc1, len);
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
@@ -436,9 +436,9 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
-		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
+		crc1 = crc32_shift(crc1, ~crc32_powmod(-(uint64_t)n));
 	else
 		crc1 = crc32_shift(crc1, crc32_powmod(n));
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
-- 
2.43.0


From 4130af11829d58f6955e3a5f02383f105c786180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 13/28] fix: encodeIncr checked the destination size against
 the default line size

A shorter line size needs more space, allowing writes past the destination.
---
 src/yencode.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index ae78dac..11333ee 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -204,6 +200,9 @@ FUNC(EncodeIncr) {
 				if (col == line_size) col = 0; // allow this case
 			}
 		}
+		// check that destination buffer has enough space
+		if (!allocResult && node::Buffer::Length(args[1]) < YENC_MAX_SIZE(arg_len, line_size))
+			RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	}
 	
 	Local<Object> ret = NEW_OBJECT;
-- 
2.43.0


From 2b236ed6a91cdc805e699692f8b864d1ed554ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 14/28] fix: from_post took quadratic time on long header words
 without a `=`

Only start matching property names at the start of a word.
---
 index.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/index.js b/index.js
index 492b398..56df72f 100644
--- a/index.js
+++ b/index.js
@@ -7,7 +7,7 @@ var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray :
 
 var nl = toBuffer([13, 10]);
 var RE_BADCHAR = /[\r\n\0]/g;
-var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
+var RE_YPROP = /(?:^|[^a-z_0-9])[0-9]*([a-z_][a-z_0-9]*)=/; // only tried from the start of a word, which keeps it linear time
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
 
@@ -86,11 +86,12 @@ var decoderParseLines = function(lines, ydata) {
 		// parse props
 		var m = line.match(RE_YPROP);
 		while(m) {
-			if(m.index != 0) {
-				warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional data ignored: "' + line.substring(0, m.index) + '"'));
-			}
 			var prop = m[1], val;
 			var valPos = m.index + m[0].length;
+			var propPos = valPos - prop.length - 1;
+			if(propPos != 0) {
+				warnings.push(DecoderWarning('ignored_line_data', 'Unknown additional data ignored: "' + line.substring(0, propPos) + '"'));
+			}
 			if(tag == 'begin' && prop == 'name') {
 				// special treatment of filename - the value is the rest of the line (can include spaces)
 				val = line.substring(valPos);
-- 
2.43.0


From ae8f2460cb27da37a1e37557215a74f4bdf12e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 15/28] fix: decoding to nothing returned a Buffer with a
 detached ArrayBuffer

---
 src/yencode.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 11333ee..c66e8a1 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -248,6 +248,10 @@ FUNC(Decode) {
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
+	if (len == 0) { // nothing decoded; a NULL pointer (from realloc) would give a Buffer with a detached ArrayBuffer
+		free(result);
+		RETURN_VAL( NEW_BUFFER(0) );
+	}
 	result = (unsigned char*)realloc(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
@@ -312,7 +316,7 @@ FUNC(DecodeIncr) {
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult && len) result = (unsigned char*)realloc(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
@@ -321,9 +325,12 @@ FUNC(DecodeIncr) {
 	Local<Object> ret = NEW_OBJECT;
 	SET_OBJ(ret, "read", Number::New(ISOLATE (double)(sp - src)));
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
-	if(allocResult) {
+	if(allocResult && len) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
+	} else if(allocResult) { // nothing decoded, as above
+		free(result);
+		SET_OBJ(ret, "output", NEW_BUFFER(0));
 	}
 	SET_OBJ(ret, "ended", Integer::New(ISOLATE (int)ended));
 	SET_OBJ(ret, "state", Integer::New(ISOLATE state));
-- 
2.43.0


From 2fbd0cb79b02203fa6ebf74898ba4467730a56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 16/28] fix: decode lost the escaped CR of a final =CR or =CRLF
 left over by the SIMD kernels

---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From 3db3825d29753e3264a0c4a7e552cbb551f031ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 17/28] fix: decoder shifted a set bit out of a signed int when
 stripping dots (SSE)

---
 src/decoder_sse_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder_sse_base.h b/src/decoder_sse_base.h
index 042faf9..9564c72 100644
--- a/src/decoder_sse_base.h
+++ b/src/decoder_sse_base.h
@@ -385,7 +385,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_sse(const uint8_t* src, long& len, unsigned
 #endif
 					{
 						mask |= (_mm_movemask_epi8(match2NlDotA) << 2);
-						mask |= (_mm_movemask_epi8(match2NlDotB) << 18) & 0xffffffff;
+						mask |= (uint32_t)_mm_movemask_epi8(match2NlDotB) << 18;
 						match2NlDotB = _mm_srli_si128(match2NlDotB, 14);
 						if(_USING_FAST_MATCH)
 							minMask = _mm_subs_epu8(_mm_set1_epi8('.'), match2NlDotB);
-- 
2.43.0


From 484d40d40207ae18335277a9d60fc033f50cd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 18/28] fix: SSE encoder passed 0 to __builtin_clz for vectors
 without escapes

---
 src/encoder_sse_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder_sse_base.h b/src/encoder_sse_base.h
index 2eb6ca3..34980cc 100644
--- a/src/encoder_sse_base.h
+++ b/src/encoder_sse_base.h
@@ -520,8 +520,8 @@ HEDLEY_ALWAYS_INLINE void do_encode_sse(int line_size, int* colOffset, const uin
 				else
 #endif
 				{
-					bitIndex = BSR32(mask);
-					bitIndex |= maskBits-1; // if(mask == 0) bitIndex = -1;
+					bitIndex = BSR32(mask | 1);
+					bitIndex |= maskBits-1; // if(mask == 0) bitIndex = -1; (BSR of 0 is undefined, hence the `| 1`)
 				}
 				const __m128i* entries;
 				
-- 
2.43.0


From 118c8be74f81aef950aaf54b608a5ffb69a1a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 19/28] fix: AVX512 encoders negated INT_MIN for a critical
 byte in the last lane

---
 src/encoder_avx_base.h | 8 ++++----
 src/encoder_sse_base.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder_avx_base.h b/src/encoder_avx_base.h
index 7185f74..bcb71ca 100644
--- a/src/encoder_avx_base.h
+++ b/src/encoder_avx_base.h
@@ -351,14 +351,14 @@ HEDLEY_ALWAYS_INLINE void do_encode_avx2(int line_size, int* colOffset, const ui
 # endif
 				{
 					__m256i dataSwapped = _mm256_permute4x64_epi64(dataA, _MM_SHUFFLE(1,0,3,2));
-					dataA = _mm256_mask_alignr_epi8(dataA, (uint32_t)(-(int32_t)maskA), dataA, dataSwapped, 15);
+					dataA = _mm256_mask_alignr_epi8(dataA, 0 - maskA, dataA, dataSwapped, 15);
 					dataA = _mm256_ternarylogic_epi32(dataA, cmpA, _mm256_set1_epi8('='), 0xb8); // (data & ~cmp) | (cmp & '=')
 					_mm256_storeu_si256((__m256i*)p, dataA);
 					p[32] = _mm_extract_epi8(_mm256_castsi256_si128(dataSwapped), 15);
 					p += outputBytesA;
 					
 					dataSwapped = _mm256_permute4x64_epi64(dataB, _MM_SHUFFLE(1,0,3,2));
-					dataB = _mm256_mask_alignr_epi8(dataB, (uint32_t)(-(int32_t)maskB), dataB, dataSwapped, 15);
+					dataB = _mm256_mask_alignr_epi8(dataB, 0 - maskB, dataB, dataSwapped, 15);
 					dataB = _mm256_ternarylogic_epi32(dataB, cmpB, _mm256_set1_epi8('='), 0xb8);
 					_mm256_storeu_si256((__m256i*)p, dataB);
 					p[32] = _mm_extract_epi8(_mm256_castsi256_si128(dataSwapped), 15);
@@ -505,14 +505,14 @@ HEDLEY_ALWAYS_INLINE void do_encode_avx2(int line_size, int* colOffset, const ui
 # endif
 					{
 						__m256i dataSwapped = _mm256_permute4x64_epi64(dataA, _MM_SHUFFLE(1,0,3,2));
-						dataA = _mm256_mask_alignr_epi8(dataA, (uint32_t)(-(int32_t)maskA), dataA, dataSwapped, 15);
+						dataA = _mm256_mask_alignr_epi8(dataA, 0 - maskA, dataA, dataSwapped, 15);
 						dataA = _mm256_ternarylogic_epi32(dataA, cmpA, _mm256_set1_epi8('='), 0xb8); // (data & ~cmp) | (cmp & '=')
 						_mm256_storeu_si256((__m256i*)p, dataA);
 						p[32] = _mm_extract_epi8(_mm256_castsi256_si128(dataSwapped), 15);
 						p += outputBytesA;
 						
 						dataSwapped = _mm256_permute4x64_epi64(dataB, _MM_SHUFFLE(1,0,3,2));
-						dataB = _mm256_mask_alignr_epi8(dataB, (uint32_t)(-(int32_t)maskB), dataB, dataSwapped, 15);
+						dataB = _mm256_mask_alignr_epi8(dataB, 0 - maskB, dataB, dataSwapped, 15);
 						dataB = _mm256_ternarylogic_epi32(dataB, cmpB, _mm256_set1_epi8('='), 0xb8);
 						_mm256_storeu_si256((__m256i*)p, dataB);
 						p[32] = _mm_extract_epi8(_mm256_castsi256_si128(dataSwapped), 15);
diff --git a/src/encoder_sse_base.h b/src/encoder_sse_base.h
index 34980cc..1c257b6 100644
--- a/src/encoder_sse_base.h
+++ b/src/encoder_sse_base.h
@@ -487,7 +487,7 @@ HEDLEY_ALWAYS_INLINE void do_encode_sse(int line_size, int* colOffset, const uin
 				// store last char
 				p[XMM_SIZE*2] = _mm_extract_epi8(dataB, 15);
 				
-				uint32_t blendMask = (uint32_t)(-(int32_t)mask);
+				uint32_t blendMask = 0 - mask;
 				dataB = _mm_mask_alignr_epi8(dataB, blendMask>>16, dataB, dataA, 15);
 				dataB = _mm_ternarylogic_epi32(dataB, cmpB, _mm_set1_epi8('='), 0xb8); // (data & ~cmp) | (cmp & '=')
 				
-- 
2.43.0


From 0d7d81cee51d55eb60265567fcfcf9d673aac8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 20/28] fix: decoder shifted a set bit out of a signed int when
 stripping dots (AVX512, 128-bit)

---
 src/decoder_sse_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder_sse_base.h b/src/decoder_sse_base.h
index 9564c72..5b05c0c 100644
--- a/src/decoder_sse_base.h
+++ b/src/decoder_sse_base.h
@@ -379,7 +379,7 @@ HEDLEY_ALWAYS_INLINE void do_decode_sse(const uint8_t* src, long& len, unsigned
 #if defined(__AVX512VL__) && defined(__AVX512BW__)
 					if(useAVX3MaskCmp) {
 						mask |= match2NlDotMaskA << 2;
-						mask |= (match2NlDotMaskB << 18) & 0xffffffff;
+						mask |= (uint32_t)match2NlDotMaskB << 18;
 						minMask = _mm_maskz_mov_epi8(~(match2NlDotMaskB>>14), _mm_set1_epi8('.'));
 					} else
 #endif
-- 
2.43.0


From 6b0c79210a274756136230f9ab77fd874281309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 21/28] fix: decodeIncr accepted values that are not decoder
 states

---
 src/yencode.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c66e8a1..5adb7d5 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -295,7 +295,10 @@ FUNC(DecodeIncr) {
 	unsigned char *result = NULL;
 	bool allocResult = true;
 	if (args.Length() > 1) {
-		state = (YencDecoderState)(ARG_TO_INT(args[1]));
+		int stateArg = (int)ARG_TO_INT(args[1]);
+		if (stateArg < YDEC_STATE_CRLF || stateArg > YDEC_STATE_CRLFEQ)
+			RETURN_ERROR("Unknown decoder state");
+		state = (YencDecoderState)stateArg;
 		if (args.Length() > 2 && node::Buffer::HasInstance(args[2])) {
 			if(node::Buffer::Length(args[2]) < arg_len)
 				RETURN_ERROR("Destination buffer does not have enough space");
-- 
2.43.0


From db12741d58c2f86ceef61360718508aed522018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 22/28] fix: crc32 of short unaligned data faulted on 32-bit
 ARM (merged word loads need alignment)

---
 src/crc_arm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crc_arm.cc b/src/crc_arm.cc
index 6eb6815..249216f 100644
--- a/src/crc_arm.cc
+++ b/src/crc_arm.cc
@@ -96,7 +96,7 @@ static uint32_t crc32_multiply_arm(uint32_t a, uint32_t b) {
 static uint32_t arm_crc_calc(uint32_t crc, const unsigned char *src, long len) {
 	
 	// initial alignment
-	if (len >= 16) { // 16 is an arbitrary number; it just needs to be >=8
+	if (len >= (long)sizeof(WORD_T)) { // needed if any whole words are read, as compilers can merge them into loads that fault if unaligned (e.g. LDRD/LDM on ARMv7)
 		if ((uintptr_t)src & sizeof(uint8_t)) {
 			crc = __crc32b(crc, *src);
 			src++;
-- 
2.43.0


From d16cff9932eb0ff636b88bbdf3a4fc01dc33df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 23/28] fix: RVV decoder went wrong or never ended on runs of
 '=' with VLEN of 512 and more

---
 src/decoder_rvv.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decoder_rvv.cc b/src/decoder_rvv.cc
index d2315ff..3a9c8fd 100644
--- a/src/decoder_rvv.cc
+++ b/src/decoder_rvv.cc
@@ -31,10 +31,11 @@ static inline vbool4_t mask_lshift(vbool4_t m, unsigned shiftIn, size_t vl) {
 }
 template<int shift>
 static inline vbool64_t mask_lshift(vbool64_t m, unsigned shiftIn, size_t vl) {
+	size_t vlBytes = (vl+7)/8; // a mask of 64-bit elements may only partially fill its last byte
 	vuint8m1_t mv = RV_VEC_CAST(64, 8, m);
-	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vl/8);
-	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vl/8);
-	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vl/8);
+	vuint8m1_t mvl = RV(vsll_vx_u8m1)(mv, shift, vlBytes);
+	vuint8m1_t mvr = RV(vsrl_vx_u8m1)(mv, 8-shift, vlBytes);
+	mvr = RV(vslide1up_vx_u8m1)(mvr, shiftIn, vlBytes);
 	
 	return RV(vmor_mm_b64)(
 		RV_MASK_CAST(64, 8, mvl), RV_MASK_CAST(64, 8, mvr), vl
@@ -226,9 +227,10 @@ HEDLEY_ALWAYS_INLINE void do_decode_rvv(const uint8_t* src, long& len, unsigned
 					unsigned vl64 = vl2/64;
 					vbool64_t carry = RV(vmadc_vv_u64m1_b64)(cmpEq64, evenStart64, vl64);
 					carry = mask_lshift<1>(carry, 0, vl64);
-					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, 1);
+					oddGroups64 = RV(vadd_vv_u64m1)(cmpEq64, evenStart64, vl64);
 					while(RV(vcpop_m_b64)(carry, vl64)) {
-						vbool64_t nextCarry = RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64);
+						// only elements which get a carry added can pass it on
+						vbool64_t nextCarry = RV(vmand_mm_b64)(carry, RV(vmadc_vx_u64m1_b64)(oddGroups64, 1, vl64), vl64);
 						oddGroups64 = RV(vadd_vx_u64m1_mu)(carry, oddGroups64, oddGroups64, 1, vl64);
 						carry = mask_lshift<1>(nextCarry, 0, vl64);
 					}
-- 
2.43.0


From 4b8f86e01185f0496b02695b3a0c4704cf6ede16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 24/28] fix: generic encoder wrote a wrong line feed on
 big-endian CPUs for characters of 214 and more

---
 src/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.cc b/src/encoder.cc
index b0642fb..fc1d70a 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -122,7 +122,7 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			col = 2;
 		} else {
 			// another option may be to just write the EOL and let the first char be handled by the faster methods above, but it appears that writing the extra byte here is generally faster...
-			uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)(c+42), 0);
+			uint32_t w = UINT32_PACK('\r', '\n', (uint32_t)((c+42) & 0xff), 0);
 			memcpy(p, &w, sizeof(w));
 			p += 3;
 			col = 1;
-- 
2.43.0


From 3a3b2c255e96ac02b45775e0105c268583dcb599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 25/28] fix: calls crashed when memory could not be allocated

---
 src/yencode.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 5adb7d5..5b0b2ac 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -41,6 +41,12 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 	return ret + 2 * ((len*2) / line_size);
 }
 
+// release the unused end of a buffer; if that fails, it just stays as it is
+static inline unsigned char* shrink_buffer(unsigned char* buf, size_t len) {
+	unsigned char* ret = (unsigned char*)realloc(buf, len);
+	return ret ? ret : buf;
+}
+
 
 
 #if NODE_VERSION_AT_LEAST(0, 11, 0)
@@ -130,8 +136,10 @@ FUNC(Encode) {
 	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	
 	unsigned char *result = (unsigned char*) malloc(dest_len);
+	if (!result)
+		RETURN_ERROR("Failed to allocate memory");
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, true);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_buffer(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -218,13 +226,15 @@ FUNC(EncodeIncr) {
 		// allocate enough memory to handle worst case requirements
 		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+		if (!result)
+			RETURN_ERROR("Failed to allocate memory");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
 	SET_OBJ(ret, "written", Number::New(ISOLATE (double)len));
 	if(allocResult) {
-		result = (unsigned char*)realloc(result, len);
+		result = shrink_buffer(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
@@ -247,12 +257,14 @@ FUNC(Decode) {
 		isRaw = ARG_TO_BOOL(args[1]);
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
+	if (!result)
+		RETURN_ERROR("Failed to allocate memory");
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
 	if (len == 0) { // nothing decoded; a NULL pointer (from realloc) would give a Buffer with a detached ArrayBuffer
 		free(result);
 		RETURN_VAL( NEW_BUFFER(0) );
 	}
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_buffer(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -315,11 +327,19 @@ FUNC(DecodeIncr) {
 	sp = (const unsigned char*)newSrc;
 #endif
 	
-	if(allocResult) result = (unsigned char*) malloc(arg_len);
+	if(allocResult) {
+		result = (unsigned char*) malloc(arg_len);
+		if (!result) {
+#ifdef DBG_ALIGN_SOURCE
+			free(newSrc);
+#endif
+			RETURN_ERROR("Failed to allocate memory");
+		}
+	}
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult && len) result = (unsigned char*)realloc(result, len);
+	if(allocResult && len) result = shrink_buffer(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
-- 
2.43.0


From 64b959be8b876a5af5714a26dfffc43cea15d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 26/28] fix: a YEncoder.encode call whose encoding fails must
 not alter the encoder

---
 index.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 56df72f..0e61c54 100644
--- a/index.js
+++ b/index.js
@@ -397,6 +397,8 @@ YEncoder.prototype = {
 		if(part == this.parts && end != this.size)
 			throw new Error('File size doesn\'t match total data length');
 		
+		var encoded = y.encode(data, this.line_size); // this can fail, so needs to come before any changes
+		
 		this.part = part;
 		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
@@ -411,7 +413,7 @@ YEncoder.prototype = {
 			toBuffer('=ybegin part='+this.part),
 			yInfo,
 			toBuffer('=ypart begin='+( this.pos+1 )+' end='+end+'\r\n'),
-			y.encode(data, this.line_size),
+			encoded,
 			toBuffer('\r\n=yend size='+data.length+' part='+this.part+' pcrc32='+crc.toString('hex')+fullCrc)
 		]);
 		
@@ -424,6 +426,9 @@ YEncoder.prototype = {
 		
 		if(this.size != data.length)
 			throw new Error('File size doesn\'t match total data length');
+		
+		var encoded = y.encode(data, this.line_size); // this can fail, so needs to come before any changes
+		
 		this.encode = singleEncodeError;
 		
 		this.part = 1;
@@ -434,7 +439,7 @@ YEncoder.prototype = {
 		this.yInfo = null;
 		return Buffer.concat([
 			yInfo,
-			y.encode(data, this.line_size),
+			encoded,
 			toBuffer('\r\n=yend size='+data.length+' crc32=' + this.crc.toString('hex'))
 		]);
 	}
-- 
2.43.0


From a1ab5948a457101b24f888fed9a4e0d1ce952497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 27/28] fix: report the column reached when encoding ends in
 the last column of a line

---
 src/encoder.cc       | 1 +
 src/encoder_common.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/encoder.cc b/src/encoder.cc
index fc1d70a..94d4b54 100644
--- a/src/encoder.cc
+++ b/src/encoder.cc
@@ -110,6 +110,7 @@ size_t RapidYenc::do_encode_generic(int line_size, int* colOffset, const unsigne
 			} else {
 				*(p++) = c + 42;
 			}
+			col = line_size; // line is full
 		}
 		
 		if (i >= 0) break;
diff --git a/src/encoder_common.h b/src/encoder_common.h
index 8e4975c..2d73c4b 100644
--- a/src/encoder_common.h
+++ b/src/encoder_common.h
@@ -68,6 +68,7 @@ static size_t do_encode_simd(int line_size, int* colOffset, const unsigned char*
 				} else {
 					*(p++) = c + 42;
 				}
+				*colOffset = line_size; // line is full
 				if(i == 0) break;
 				c = es[i++];
 			}
-- 
2.43.0


From e5fa11b5efdbfc13c32df035e79861c7158a5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 28/28] fix: from_post did not find the yEnc data or its end
 beyond 2 GiB

---
 index.js | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 0e61c54..fc988f0 100644
--- a/index.js
+++ b/index.js
@@ -23,10 +23,20 @@ var DecoderWarning = function(code, message) {
 }
 DecoderWarning.prototype = { toString: function() { return this.message; } };
 
+// Node's indexOf/lastIndexOf only support 31-bit offsets, so larger buffers are searched in (overlapping) pieces
+var FIND_SIZE = 0x40000000, FIND_OVERLAP = 64;
+
 var bufferFind, bufferFindRev;
 if(Buffer.prototype.indexOf)
 	bufferFind = function(buf, search, start) {
-		return buf.indexOf(search, start, module.exports.encoding);
+		if(buf.length <= FIND_SIZE)
+			return buf.indexOf(search, start, module.exports.encoding);
+		
+		for(start = start || 0; start < buf.length; start += FIND_SIZE - FIND_OVERLAP) {
+			var pos = bufferSlice.call(buf, start, start + FIND_SIZE).indexOf(search, 0, module.exports.encoding);
+			if(pos >= 0) return start + pos;
+		}
+		return -1;
 	};
 else
 	bufferFind = function(buf, search, start) {
@@ -50,7 +60,11 @@ else
 	};
 if(Buffer.prototype.lastIndexOf)
 	bufferFindRev = function(buf, search) {
-		return buf.lastIndexOf(search, -1, module.exports.encoding);
+		for(var end = buf.length; end > FIND_SIZE; end -= FIND_SIZE - FIND_OVERLAP) {
+			var pos = bufferSlice.call(buf, end - FIND_SIZE, end).lastIndexOf(search, -1, module.exports.encoding);
+			if(pos >= 0) return end - FIND_SIZE + pos;
+		}
+		return bufferSlice.call(buf, 0, end).lastIndexOf(search, -1, module.exports.encoding);
 	};
 else
 	bufferFindRev = function(buf, search) {
-- 
2.43.0

