From f5a141809a78cfa5517ebe9db251b26daca603e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 01/70] fix: base64 decoder accepted '{', '|', '}', '~' and DEL
 as alphabet characters

---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From cda03cefd1004b8663e36730322cc55947674ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 02/70] fix: SpinWait::spinUntil gave up on an infinite timeout
 and ignored a 1 ms timeout

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From dddbd94c3e3982e3178fd6b21a772e24be7632dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 03/70] fix: URI::decode read past the end of, or mis-decoded,
 incomplete percent escapes

---
 src/core/include/URI.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..dc25616 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -162,10 +162,13 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                const auto isHexDigit = [&s](std::size_t pos) { return pos < s.size() && std::isxdigit(static_cast<unsigned char>(s[pos])) != 0; };
+                if (!isHexDigit(i + 1) || !isHexDigit(i + 2)) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("'%' not followed by two hexadecimal digits at {} of '{}'", i, s));
                     }
+                    decoded << c; // not an escape sequence -> keep as is
+                    continue;
                 }
                 int                d;
                 std::istringstream iss(std::string(s.substr(i + 1, 2))); // TODO find smarter conversion
-- 
2.43.0


From ad776981bf1c01911302ce7bda2cc969c750f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 04/70] fix: URI host/port of IPv6 literals, and process
 termination on non-numeric ports

---
 src/core/include/URI.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index dc25616..bb61139 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,7 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -188,7 +189,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return parsePort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -287,7 +288,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = parsePort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -443,6 +444,12 @@ private:
         }
     }
 
+    static std::optional<uint16_t> parsePort(std::string_view port) noexcept {
+        uint16_t   value  = 0;
+        const auto result = std::from_chars(port.data(), port.data() + port.size(), value);
+        return result.ec == std::errc{} && result.ptr == port.data() + port.size() ? std::optional(value) : std::nullopt;
+    }
+
     // returns tif only RFC 3986 section 2.3 Unreserved Characters
     static constexpr inline bool isUnreserved(const char c) noexcept { return std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~'; }
     constexpr inline void        parseAuthority() const {
@@ -462,7 +469,9 @@ private:
         } else {
             userSplit = 0;
         }
-        size_t portSplit = std::min(_authority.find_first_of(':', userSplit), _authority.length());
+        // N.B. colons inside the brackets of an IPv6 literal do not separate the port
+        const size_t literalEnd = _authority.substr(userSplit).starts_with('[') ? _authority.find(']', userSplit) : std::string_view::npos;
+        size_t       portSplit  = std::min(_authority.find_first_of(':', literalEnd != std::string_view::npos ? literalEnd : userSplit), _authority.length());
         if (portSplit != std::string_view::npos && portSplit < _authority.length()) {
             // port defined
             _hostName = _authority.substr(userSplit, portSplit - userSplit);
-- 
2.43.0


From 401e8c139d554e2cb2d4bb49fd54ef5cd3c09360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 05/70] fix: URI query map kept a value-less last key
 undecoded, and partial results after a syntax error

---
 src/core/include/URI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index bb61139..8df004a 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -218,6 +218,7 @@ public:
             if (!std::all_of(_query.begin(), _query.end(), [](char c) { return isUnreserved(c) || c == '&' || c == ';' || c == '=' || c == '%' || c == ':' || c == '/'; })) {
                 throw URISyntaxException(std::format("URI query contains illegal characters: {}", _query));
             }
+            static_cast<void>(decode(_query)); // throws on malformed escapes before any parameter is stored
         }
         size_t readPos = 0;
         while (readPos < _query.length()) {
@@ -246,7 +247,7 @@ public:
                 _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
+                auto key       = decode(_query.substr(readPos, _query.length() - readPos));
                 _queryMap[key] = std::nullopt;
                 break;
             }
-- 
2.43.0


From 116909ad6c8449b36e6396304bcf5c2553c1040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 06/70] fix: URI factory appended its query parameters again on
 every toString()/build()

---
 src/core/include/URI.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 8df004a..c7dff5a 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -261,14 +261,14 @@ public:
     bool operator==(const URI &other) const noexcept { return _str == other.str(); }
 
     class UriFactory {
-        mutable std::string     _authority;
+        std::string             _authority;
         std::string             _scheme;
         std::string             _userName;
         std::string             _pwd;
         std::string             _host;
         std::optional<uint16_t> _port;
         std::string             _path;
-        mutable std::string     _query;
+        std::string             _query;
         std::string             _fragment;
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
@@ -309,34 +309,35 @@ public:
         // clang-format on
 
         std::string toString() const {
-            if (_authority.empty()) {
+            std::string authority = _authority;
+            std::string query     = _query;
+            if (authority.empty()) {
                 const std::string optColon1 = (_pwd.empty() || _userName.empty()) ? "" : ":";
                 const std::string pwdPart   = _userName.empty() ? "" : _pwd;
                 const std::string atSign    = _userName.empty() ? "" : "@"; // after “user[:pwd]”
                 const std::string optColon2 = _port ? ":" : "";             // before port
                 const std::string portPart  = _port ? std::to_string(*_port) : "";
 
-                _authority                  = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
+                authority                   = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
             }
 
-            // TODO: Calling toString multiple times appends parameters over and over again
             for (const auto &[key, value] : _queryMap) {
                 // RFC-3986: “key[=value]” pairs joined by ‘&’
-                const std::string ampersand  = _query.empty() ? "" : "&";
+                const std::string ampersand  = query.empty() ? "" : "&";
                 const std::string encodedKey = encode(key);
                 const std::string equalSign  = value ? "=" : "";
                 const std::string encodedVal = value ? encode(value.value()) : "";
 
-                _query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
+                query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
             }
 
             const std::string colon     = _scheme.empty() ? "" : ":";
-            const std::string authSlash = (_authority.empty() || _authority.starts_with("//")) ? "" : "//";
-            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || _authority.empty()) ? "" : "/";
-            const std::string qMark     = (_query.empty() || _query.starts_with('?')) ? "" : "?";
+            const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
+            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
+            const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
             const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, _authority, pathSlash, _path, qMark, _query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
         }
 
         URI build() {
-- 
2.43.0


From d23d526eecea91615a662d031529d6f3f3c0771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 07/70] fix: URI of a single character threw std::out_of_range

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index c7dff5a..3d461ad 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -401,7 +401,7 @@ private:
             if ((source.length() > (authOffset + 1) && source[schemeSize] == '/' && source[schemeSize + 1] == '/')
                     || (schemeSize == 0 && source[schemeSize] != '/' && source[schemeSize] != '?' && source[schemeSize] != '#')) {
                 // authority isUnreserved defined starting with '//'
-                authOffset += 2;
+                authOffset = std::min(authOffset + 2, source.length());
                 authEnd    = std::min(source.find_first_of("/?#", authOffset), source.length());
                 _authority = source.substr(authOffset, authEnd - authOffset);
                 if constexpr (check == STRICT) {
-- 
2.43.0


From 51d94ec83470ce80e3d95e0e571126b88aefc8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:56 +0000
Subject: [PATCH 08/70] fix: URI copy assignment kept user, password, host and
 port views of the overwritten URI

---
 src/core/include/URI.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 3d461ad..bb3330c 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -83,7 +83,8 @@ public:
         }
 
         _parsedAuthority = other._parsedAuthority;
-        if (!_parsedAuthority) {
+        if (!_parsedAuthority) { // to be evaluated on demand
+            _userName = _pwd = _hostName = _port = {};
             return *this;
         }
         _userName = adjustedView(other._userName);
-- 
2.43.0


From 68a09c2c24c8a8d2180bda6ee013457dc6c3dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:33 +0000
Subject: [PATCH 09/70] fix: BasicSetting::replace from the real-time thread
 was undone by the next real-time access

---
 src/disruptor/include/BasicSetting.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..fbb7670 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -283,11 +283,8 @@ public:
 
     template<typename... Args>
     void realtimeReplace(Args &&...args) {
-        T    obj(std::forward<Args>(args)...);
-
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
-        releaseIndex(idx);
+        realtimeCopy = T(std::forward<Args>(args)...);
+        realtimeRelease();
     }
 
     const T &nonRealtimeAcquire() {
-- 
2.43.0


From 2098cd6e905a3a1d9f48577678af2c51b64df380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:33 +0000
Subject: [PATCH 10/70] fix: BasicSetting guard get() and real-time acquire()
 of a real-time mutable setting did not compile

---
 src/disruptor/include/BasicSetting.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index fbb7670..21cd07e 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -93,8 +93,9 @@ public:
     [[nodiscard]] std::conditional_t<mutableBy == MutableOption::RealTimeMutable && threadType == AccessType::RealTime, T, const T> &acquire() noexcept {
         if constexpr (threadType == AccessType::RealTime) {
             return _settingStore.realtimeAcquire();
+        } else {
+            return _settingStore.nonRealtimeAcquire();
         }
-        return _settingStore.nonRealtimeAcquire();
     }
 
     template<AccessType threadType>
@@ -145,13 +146,13 @@ public:
 
         // read-only access
         constexpr          operator const SettingType &() const noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
-        constexpr const T &get() const noexcept { return _currentValue; }
+        constexpr const T &get() const noexcept { return *_currentValue; }
         constexpr const T *operator->() const noexcept { return _currentValue; }
 
         // read-write access
         constexpr operator SettingType &() noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
         template<bool b = true>
-        requires enableMutableAccess T &get() noexcept { return _currentValue; }
+        requires enableMutableAccess T &get() noexcept { return *_currentValue; }
         template<bool b = true>
         requires enableMutableAccess T &operator=(const T &newVal) {
             *_currentValue = newVal;
-- 
2.43.0


From 839841540f5c431dcb465f6a5eb37b6493f79ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:35 +0000
Subject: [PATCH 11/70] fix: setThreadName ignored errors and read past the end
 of the given name

---
 src/core/include/ThreadAffinity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..693bf3c 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -139,7 +139,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    if (int rc = pthread_setname_np(handle, std::string(threadName).c_str()); rc != 0) {
         throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0


From cc7889daddf6f6f67dbb428685ceff21bfcfcf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:15 +0000
Subject: [PATCH 12/70] fix: read each sequence once when determining the
 minimum sequence

The chosen element was read a second time for the result; a sequence that advanced in between yields
a value above the minimum, so producers may overwrite slots still in use and consumers may overtake
the processors they depend on.
---
 src/disruptor/include/disruptor/Sequence.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..977e8dd 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -59,21 +59,11 @@ namespace detail {
  * \returns the minimum sequence found or lon.MaxValue if the array is empty.
  */
 inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequence>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
-    if (sequences.empty()) {
-        return minimum;
+    // N.B. every sequence is read exactly once: it may advance concurrently and a second read could exceed the others
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value());
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
-    }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From f4885253d6521064d7134e9ca39b56206c02cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:26 +0000
Subject: [PATCH 13/70] fix: do not move the cursor when a single producer
 claims slots

next() stored the highest claimed sequence in the cursor; if earlier claims were not published yet
(claiming ahead) consumers saw events that were never published.
---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..8bea5f9 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -57,8 +57,6 @@ public:
         auto wrapPoint    = nextSequence - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _cachedValue; wrapPoint > cachedGatingSequence || cachedGatingSequence > _nextValue) {
-            _cursor.setValue(_nextValue);
-
             SpinWait     spinWait;
             std::int64_t minSequence;
             while (wrapPoint > (minSequence = detail::getMinimumSequence(dependents, _nextValue))) {
-- 
2.43.0


From 4f1a8619b913778c9ab335e2e26b07d0510c81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:37 +0000
Subject: [PATCH 14/70] fix: publish availability flags and the alert flag
 through atomics

Producers set the availability of a slot with a plain store, which neither orders the event's content
before it nor is free of a data race with the consumers polling it; likewise the barrier's alert flag.
---
 src/disruptor/include/disruptor/ClaimStrategy.hpp        | 9 ++++++---
 .../include/disruptor/ProcessingSequenceBarrier.hpp      | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index 8bea5f9..649f3c3 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -1,6 +1,9 @@
 #ifndef OPENCMW_CPP_CLAIMSTRATEGY_HPP
 #define OPENCMW_CPP_CLAIMSTRATEGY_HPP
 
+#include <array>
+#include <atomic>
+
 #include <opencmw.hpp>
 
 #include <SpinWait.hpp>
@@ -114,7 +117,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -216,7 +219,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -231,7 +234,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
diff --git a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
index e6ab764..0c1a227 100644
--- a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
+++ b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
@@ -24,7 +24,7 @@ class ProcessingSequenceBarrier : public ISequenceBarrier, public std::enable_sh
     WAIT_STRATEGY                                          &_waitStrategyRef;
     EventStore<T>                                          &_sequenceProviderRef;
 
-    bool                                                    _alerted = false;
+    std::atomic<bool>                                       _alerted{ false };
 
 public:
     ProcessingSequenceBarrier(const std::shared_ptr<EventStore<T>> &sequenceProvider,
-- 
2.43.0


From cb8c7fddca5f85df3fda5349f2ab7a76e9243b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 15/70] fix: read the list of gating sequences atomically, it
 may be exchanged concurrently

---
 .../include/disruptor/ClaimStrategy.hpp          | 16 ++++++++--------
 src/disruptor/include/disruptor/RingBuffer.hpp   | 12 ++++++------
 src/disruptor/include/disruptor/Sequence.hpp     |  8 ++++++++
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index 649f3c3..d71258c 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -42,7 +42,7 @@ public:
     SingleThreadedStrategy(const SingleThreadedStrategy &&) = delete;
     void operator=(const SingleThreadedStrategy &)          = delete;
 
-    bool hasAvailableCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents, const int requiredCapacity, const std::int64_t /*cursorValue*/) const noexcept {
+    bool hasAvailableCapacity(const auto &dependents, const int requiredCapacity, const std::int64_t /*cursorValue*/) const noexcept {
         if (const std::int64_t wrapPoint = (_nextValue + requiredCapacity) - static_cast<std::int64_t>(SIZE); wrapPoint > _cachedValue || _cachedValue > _nextValue) {
             auto minSequence = detail::getMinimumSequence(dependents, _nextValue);
             _cachedValue     = minSequence;
@@ -53,7 +53,7 @@ public:
         return true;
     }
 
-    std::int64_t next(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) noexcept {
+    std::int64_t next(const auto &dependents, const std::int32_t n_slots_to_claim = 1) noexcept {
         assert((n_slots_to_claim > 0 && n_slots_to_claim < static_cast<std::int32_t>(SIZE)) && "n_slots_to_claim must be > 0 and < bufferSize");
 
         auto nextSequence = _nextValue + n_slots_to_claim;
@@ -75,7 +75,7 @@ public:
         return nextSequence;
     }
 
-    std::int64_t tryNext(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim) {
+    std::int64_t tryNext(const auto &dependents, const std::int32_t n_slots_to_claim) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         if (!hasAvailableCapacity(dependents, n_slots_to_claim, 0 /* unused cursor value */)) {
@@ -88,7 +88,7 @@ public:
         return nextSequence;
     }
 
-    std::int64_t getRemainingCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents) const noexcept {
+    std::int64_t getRemainingCapacity(const auto &dependents) const noexcept {
         const auto consumed = detail::getMinimumSequence(dependents, _nextValue);
         const auto produced = _nextValue;
 
@@ -135,7 +135,7 @@ public:
     MultiThreadedStrategy(const MultiThreadedStrategy &&)       = delete;
     void               operator=(const MultiThreadedStrategy &) = delete;
 
-    [[nodiscard]] bool hasAvailableCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int64_t requiredCapacity, const std::int64_t cursorValue) const noexcept {
+    [[nodiscard]] bool hasAvailableCapacity(const auto &dependents, const std::int64_t requiredCapacity, const std::int64_t cursorValue) const noexcept {
         const auto wrapPoint = (cursorValue + requiredCapacity) - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _gatingSequenceCache->value(); wrapPoint > cachedGatingSequence || cachedGatingSequence > cursorValue) {
@@ -149,7 +149,7 @@ public:
         return true;
     }
 
-    [[nodiscard]] std::int64_t next(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) {
+    [[nodiscard]] std::int64_t next(const auto &dependents, const std::int32_t n_slots_to_claim = 1) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         std::int64_t current;
@@ -183,7 +183,7 @@ public:
         return next;
     }
 
-    [[nodiscard]] std::int64_t tryNext(const std::vector<std::shared_ptr<Sequence>> &dependents, const std::int32_t n_slots_to_claim = 1) {
+    [[nodiscard]] std::int64_t tryNext(const auto &dependents, const std::int32_t n_slots_to_claim = 1) {
         assert((n_slots_to_claim > 0) && "n_slots_to_claim must be > 0");
 
         std::int64_t current;
@@ -201,7 +201,7 @@ public:
         return next;
     }
 
-    [[nodiscard]] std::int64_t getRemainingCapacity(const std::vector<std::shared_ptr<Sequence>> &dependents) const noexcept {
+    [[nodiscard]] std::int64_t getRemainingCapacity(const auto &dependents) const noexcept {
         const auto produced = _cursor.value();
         const auto consumed = detail::getMinimumSequence(dependents, produced);
 
diff --git a/src/disruptor/include/disruptor/RingBuffer.hpp b/src/disruptor/include/disruptor/RingBuffer.hpp
index 369e87d..7a92b90 100644
--- a/src/disruptor/include/disruptor/RingBuffer.hpp
+++ b/src/disruptor/include/disruptor/RingBuffer.hpp
@@ -44,10 +44,10 @@ public:
     }
 
     [[nodiscard]] constexpr std::int32_t                    bufferSize() const noexcept override { return SIZE; }
-    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(*_gatingSequences, requiredCapacity, _cursor->value()); }
-    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(*_gatingSequences, n_slots_to_claim); }
-    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(*_gatingSequences); }
+    [[nodiscard]] bool                                      hasAvailableCapacity(std::int32_t requiredCapacity) const noexcept override { return _claimStrategy->hasAvailableCapacity(_gatingSequences, requiredCapacity, _cursor->value()); }
+    [[nodiscard]] std::int64_t                              next(std::int32_t n_slots_to_claim = 1) noexcept override { return _claimStrategy->next(_gatingSequences, n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              tryNext(std::int32_t n_slots_to_claim = 1) override { return _claimStrategy->tryNext(_gatingSequences, n_slots_to_claim); }
+    [[nodiscard]] std::int64_t                              getRemainingCapacity() const noexcept override { return _claimStrategy->getRemainingCapacity(_gatingSequences); }
     void                                                    publish(std::int64_t sequence) override { _claimStrategy->publish(sequence); }
     [[nodiscard]] OPENCMW_FORCEINLINE bool                  isAvailable(std::int64_t sequence) const noexcept override { return _claimStrategy->isAvailable(sequence); }
     [[nodiscard]] std::int64_t                              getHighestPublishedSequence(std::int64_t nextSequence, std::int64_t availableSequence) const noexcept override { return _claimStrategy->getHighestPublishedSequence(nextSequence, availableSequence); }
@@ -55,8 +55,8 @@ public:
     [[nodiscard]] bool                                      isPublished(std::int64_t sequence) const noexcept override { return isAvailable(sequence); }
     void                                                    addGatingSequences(const std::vector<std::shared_ptr<Sequence>> &gatingSequences) override { detail::addSequences(_gatingSequences, *_cursor, gatingSequences); }
     bool                                                    removeGatingSequence(const std::shared_ptr<Sequence> &sequence) override { return detail::removeSequence(_gatingSequences, sequence); }
-    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return _gatingSequences; }
-    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(*_gatingSequences, _cursor->value()); }
+    std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> getGatingSequences() const noexcept override { return std::atomic_load_explicit(&_gatingSequences, std::memory_order_acquire); }
+    [[nodiscard]] std::int64_t                              getMinimumGatingSequence() const noexcept override { return detail::getMinimumSequence(_gatingSequences, _cursor->value()); }
     [[nodiscard]] auto                                      claimStrategy() { return _claimStrategy; }
     [[nodiscard]] auto                                      waitStrategy() { return _waitStrategy; }
     [[nodiscard]] auto                                      cursorSequence() { return _cursor; }
diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index 977e8dd..518f489 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -66,6 +66,14 @@ inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequenc
     return minimum;
 }
 
+/**
+ * Minimum of a list of sequences that may be exchanged concurrently (see addSequences(..) and removeSequence(..)).
+ */
+inline std::int64_t getMinimumSequence(const std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
+    const auto currentSequences = std::atomic_load_explicit(&sequences, std::memory_order_acquire);
+    return getMinimumSequence(*currentSequences, minimum);
+}
+
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
     std::int64_t                                            cursorSequence;
     std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> updatedSequences;
-- 
2.43.0


From 07ee5e6ae53f82324efe2ee16d36123c788a9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:15 +0000
Subject: [PATCH 16/70] fix: halt() of an event processor was lost when it came
 before or while run() started

---
 .../include/disruptor/BatchEventProcessor.hpp       | 13 +++++++++----
 src/disruptor/include/disruptor/WorkProcessor.hpp   | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index b857e96..e34010e 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -24,6 +24,7 @@ template<typename T>
 class BatchEventProcessor : public IEventProcessor {
 private:
     std::atomic<bool>                     _running{ false };
+    std::atomic<bool>                     _haltRequested{ false };
     std::shared_ptr<EventStore<T>>        _dataProvider;
     EventStore<T>                        &_dataProviderRef;
     std::shared_ptr<ISequenceBarrier>     _sequenceBarrier;
@@ -74,7 +75,7 @@ public:
      * \see ISequenceBarrier::Alert
      */
     void halt() override {
-        _running = false;
+        _haltRequested = true; // also ends a run that has not started yet
         _sequenceBarrier->alert();
     }
 
@@ -82,7 +83,7 @@ public:
      * \see IEventProcessor::IsRunning
      */
     bool isRunning() const override {
-        return _running;
+        return _running && !_haltRequested;
     }
 
     /**
@@ -106,6 +107,9 @@ public:
         }
 
         _sequenceBarrierRef.clearAlert();
+        if (_haltRequested) { // do not lose the alert of a halt() that came first
+            _sequenceBarrierRef.alert();
+        }
 
         notifyStart();
 
@@ -127,7 +131,7 @@ public:
             } catch (const TimeoutException &) {
                 notifyTimeout(_sequenceRef.value());
             } catch (const AlertException &) {
-                if (_running == false) {
+                if (_haltRequested) {
                     break;
                 }
             } catch (const std::exception &ex) {
@@ -138,7 +142,8 @@ public:
         }
 
         notifyShutdown();
-        _running = false;
+        _haltRequested = false;
+        _running       = false;
     }
 
 private:
diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index 0ae3a70..b91fb9e 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -31,6 +31,7 @@ private:
     struct PrivateKey {};
 
     std::atomic<std::int32_t>             _running{ 0 };
+    std::atomic<bool>                     _haltRequested{ false };
     std::shared_ptr<Sequence>             _sequence = std::make_shared<Sequence>();
     std::shared_ptr<EventStore<T>>        _ringBuffer;
     std::shared_ptr<ISequenceBarrier>     _sequenceBarrier;
@@ -98,11 +99,11 @@ public:
      * Signal that this IEventProcessor should stop when it has finished consuming at the next clean break. It will call ISequenceBarrier::alert() to notify the thread to check status.
      */
     void halt() override {
-        _running = 0;
+        _haltRequested = true; // also ends a run that has not started yet
         _sequenceBarrier->alert();
     }
 
-    [[nodiscard]] bool isRunning() const override { return _running == 1; }
+    [[nodiscard]] bool isRunning() const override { return _running == 1 && !_haltRequested; }
 
     /**
      * It is ok to have another thread re-run this method after a halt().
@@ -112,6 +113,9 @@ public:
             throw std::logic_error("Thread is already running");
         }
         _sequenceBarrier->clearAlert();
+        if (_haltRequested) { // do not lose the alert of a halt() that came first
+            _sequenceBarrier->alert();
+        }
 
         notifyStart();
 
@@ -141,7 +145,7 @@ public:
             } catch (const TimeoutException &) {
                 notifyTimeout(_sequence->value());
             } catch (const AlertException &) {
-                if (_running == 0) {
+                if (_haltRequested) {
                     break;
                 }
             } catch (std::exception &ex) {
@@ -152,7 +156,8 @@ public:
 
         notifyShutdown();
 
-        _running = 0;
+        _haltRequested = false;
+        _running       = 0;
     }
 
 private:
-- 
2.43.0


From c835d9269aedcab61d3afbafe8521e726248a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:01 +0000
Subject: [PATCH 17/70] fix: an event processor whose exception handler gave up
 stayed marked as running, and crashed without one

---
 .../include/disruptor/BatchEventProcessor.hpp | 28 +++++++++++++++----
 .../include/disruptor/WorkProcessor.hpp       | 26 +++++++++++++----
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index e34010e..78170e8 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -111,8 +111,21 @@ public:
             _sequenceBarrierRef.alert();
         }
 
-        notifyStart();
+        try {
+            notifyStart();
+            processEvents();
+        } catch (...) { // not handled by the exception handler: this run has ended
+            _haltRequested = false;
+            _running       = false;
+            throw;
+        }
+
+        _haltRequested = false;
+        _running       = false;
+    }
 
+private:
+    void processEvents() {
         auto nextSequence = _sequenceRef.value() + 1;
 
         T   *evt          = nullptr;
@@ -135,18 +148,23 @@ public:
                     break;
                 }
             } catch (const std::exception &ex) {
-                _exceptionHandler->handleEventException(ex, nextSequence, *evt);
+                try {
+                    if (!_exceptionHandler) {
+                        throw;
+                    }
+                    _exceptionHandler->handleEventException(ex, nextSequence, *evt);
+                } catch (...) {
+                    notifyShutdown();
+                    throw;
+                }
                 _sequenceRef.setValue(nextSequence);
                 nextSequence++;
             }
         }
 
         notifyShutdown();
-        _haltRequested = false;
-        _running       = false;
     }
 
-private:
     void notifyTimeout(std::int64_t availableSequence) const {
         try {
             if (_timeoutHandler)
diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index b91fb9e..c797cf7 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -117,8 +117,21 @@ public:
             _sequenceBarrier->alert();
         }
 
-        notifyStart();
+        try {
+            notifyStart();
+            processEvents();
+        } catch (...) { // not handled by the exception handler: this run has ended
+            _haltRequested = false;
+            _running       = 0;
+            throw;
+        }
+
+        _haltRequested = false;
+        _running       = 0;
+    }
 
+private:
+    void processEvents() {
         auto processedSequence       = true;
         auto cachedAvailableSequence = std::numeric_limits<std::int64_t>::min();
         auto nextSequence            = _sequence->value();
@@ -149,18 +162,19 @@ public:
                     break;
                 }
             } catch (std::exception &ex) {
-                _exceptionHandler->handleEventException(ex, nextSequence, *eventRef);
+                try {
+                    _exceptionHandler->handleEventException(ex, nextSequence, *eventRef);
+                } catch (...) {
+                    notifyShutdown();
+                    throw;
+                }
                 processedSequence = true;
             }
         }
 
         notifyShutdown();
-
-        _haltRequested = false;
-        _running       = 0;
     }
 
-private:
     void notifyTimeout(std::int64_t availableSequence) {
         try {
             if (_timeoutHandler != nullptr)
-- 
2.43.0


From 4710950ff51b93d2bf7a9956c45c7be2b65da39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 18/70] fix: disruptor after(handler), worker pools and
 operator[] did not compile

---
 src/disruptor/include/disruptor/ConsumerRepository.hpp | 2 +-
 src/disruptor/include/disruptor/Disruptor.hpp          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ConsumerRepository.hpp b/src/disruptor/include/disruptor/ConsumerRepository.hpp
index 1dbf525..cde36e9 100644
--- a/src/disruptor/include/disruptor/ConsumerRepository.hpp
+++ b/src/disruptor/include/disruptor/ConsumerRepository.hpp
@@ -63,7 +63,7 @@ public:
     std::shared_ptr<IEventProcessor> getEventProcessorFor(const std::shared_ptr<IEventHandler<T>> &eventHandler) {
         auto it = _eventProcessorInfoByEventHandler.find(eventHandler);
         if (it == _eventProcessorInfoByEventHandler.end() || it->second == nullptr) {
-            throw std::invalid_argument(std::format("The event handler {} is not processing events.", eventHandler));
+            throw std::invalid_argument(std::format("The event handler {} is not processing events.", static_cast<const void *>(eventHandler.get())));
         }
 
         auto &&eventProcessorInfo = it->second;
diff --git a/src/disruptor/include/disruptor/Disruptor.hpp b/src/disruptor/include/disruptor/Disruptor.hpp
index 209d61b..7334253 100644
--- a/src/disruptor/include/disruptor/Disruptor.hpp
+++ b/src/disruptor/include/disruptor/Disruptor.hpp
@@ -344,7 +344,7 @@ public:
      * \returns event for the sequence
      */
     T &operator[](std::int64_t sequence) const {
-        return _ringBuffer[sequence];
+        return (*_ringBuffer)[sequence];
     }
 
     /**
@@ -384,7 +384,7 @@ public:
 
     std::shared_ptr<EventHandlerGroupType> createWorkerPool(const std::vector<std::shared_ptr<Sequence>> &barrierSequences,
             const std::vector<std::shared_ptr<IWorkHandler<T>>>                                          &workHandlers) {
-        auto sequenceBarrier = _ringBuffer->newBarrier(barrierSequences);
+        auto sequenceBarrier = newBarrier(_ringBuffer, barrierSequences);
         auto workerPool      = std::make_shared<WorkerPool<T>>(_ringBuffer, sequenceBarrier, _exceptionHandler, workHandlers);
         _consumerRepository->add(workerPool, sequenceBarrier);
 
-- 
2.43.0


From d84638f5be932c81b9bd8ffbf43496e757ee311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:03 +0000
Subject: [PATCH 19/70] fix: a refused second Disruptor::start() moved the
 sequences of the running processors

---
 src/disruptor/include/disruptor/Disruptor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/Disruptor.hpp b/src/disruptor/include/disruptor/Disruptor.hpp
index 7334253..fec09ac 100644
--- a/src/disruptor/include/disruptor/Disruptor.hpp
+++ b/src/disruptor/include/disruptor/Disruptor.hpp
@@ -259,9 +259,9 @@ public:
      * \returns the configured ring buffer
      */
     std::shared_ptr<EventStore<T>> start() {
-        _ringBuffer->addGatingSequences(_consumerRepository->getLastSequenceInChain(true));
-
         checkOnlyStartedOnce();
+
+        _ringBuffer->addGatingSequences(_consumerRepository->getLastSequenceInChain(true));
         for (auto &&consumerInfo : *_consumerRepository) {
             consumerInfo->start(_executor);
         }
-- 
2.43.0


From 27ac10799b02bb913f52076497bf1cc5cb37abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:20 +0000
Subject: [PATCH 20/70] fix: a request was routed to the shortest service whose
 name is a string prefix, and an empty name read out of bounds

---
 src/majordomo/include/majordomo/Broker.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c0c9e73..4924eb2 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -754,15 +754,12 @@ private:
             // remove leading slashes from both the name and the
             // service name, if present
             auto removeSlash = [](std::string_view s) {
-                if (s[0] == '/') {
-                    return std::string_view(s.data() + 1, s.size() - 1);
-                }
-                return s;
+                return s.starts_with('/') ? s.substr(1) : s;
             };
             auto n  = removeSlash(name);
             auto sn = removeSlash(serviceName);
-            if (!sn.starts_with(n)) continue;
-            if (!bestService || lessByLength(n, bestServiceName)) {
+            if (!sn.starts_with(n) || (sn.size() > n.size() && sn[n.size()] != '/')) continue;
+            if (!bestService || lessByLength(std::string_view(bestServiceName), n)) {
                 bestServiceName = n;
                 bestService     = std::addressof(service);
             }
-- 
2.43.0


From 0651ed369f421cee5f53b58363e58292e3a1d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:20 +0000
Subject: [PATCH 21/70] fix: a worker was queued as waiting twice (READY
 repeated, PARTIAL replies) and used after it was purged

---
 src/majordomo/include/majordomo/Broker.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 4924eb2..3cdf23c 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -822,7 +822,10 @@ private:
         // TODO
         // waiting.addLast(worker);
         auto service = _services.find(worker.serviceName);
-        service->second.waiting.push_back(&worker);
+        auto &waiting = service->second.waiting;
+        if (std::find(waiting.begin(), waiting.end(), &worker) == waiting.end()) {
+            waiting.push_back(&worker);
+        }
         worker.expiry = updatedWorkerExpiry();
         dispatch(service->second);
     }
@@ -959,7 +962,8 @@ private:
         const auto  knownWorker = _workers.contains(serviceId);
         auto       &worker      = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second;
 
-        switch (message.command) {
+        const auto command = message.command;
+        switch (command) {
         case mdp::Command::Ready: {
             std::ignore = requireService(message.serviceName, std::string(message.data.asString()));
             workerWaiting(worker);
@@ -995,7 +999,11 @@ private:
                     zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
-                workerWaiting(worker);
+                if (command == mdp::Command::Final) {
+                    workerWaiting(worker);
+                } else {
+                    worker.expiry = updatedWorkerExpiry(); // more to come, the worker is still busy
+                }
             } else {
                 disconnectWorker(worker);
             }
-- 
2.43.0


From 5da3f2eb85506d04b5f6e959a564f6417a30da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:51 +0000
Subject: [PATCH 22/70] fix: a worker whose client had expired was never given
 a request again

---
 src/majordomo/include/majordomo/Broker.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 3cdf23c..8fad82b 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -984,19 +984,17 @@ private:
         case mdp::Command::Final: {
             if (knownWorker) {
                 auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
-                if (client == _clients.end()) {
-                    return; // drop if client unknown/disappeared
-                }
-
-                message.sourceId     = message.serviceName; // serviceName=clientSourceID
-                message.serviceName  = worker.serviceName;
-                message.protocolName = mdp::clientProtocol;
-                if (message.sourceId == kRestSourceId) {
-                    if (_restServer) {
-                        _restServer->handleResponse(std::move(message));
+                if (client != _clients.end()) { // drop if client unknown/disappeared
+                    message.sourceId     = message.serviceName; // serviceName=clientSourceID
+                    message.serviceName  = worker.serviceName;
+                    message.protocolName = mdp::clientProtocol;
+                    if (message.sourceId == kRestSourceId) {
+                        if (_restServer) {
+                            _restServer->handleResponse(std::move(message));
+                        }
+                    } else {
+                        zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                     }
-                } else {
-                    zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
                 if (command == mdp::Command::Final) {
-- 
2.43.0


From 1eea3ee2cb5563bb9174022bbfe0449f6335952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:51 +0000
Subject: [PATCH 23/70] fix: any message from an unregistered peer registered
 it as a worker, and a worker that had expired was told to stop for good

---
 src/majordomo/include/majordomo/Broker.hpp | 34 +++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 8fad82b..47f9372 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -959,14 +959,14 @@ private:
 
     void processWorker(const zmq::Socket &socket, BrokerMessage &&message) {
         const auto &serviceId   = message.sourceId;
-        const auto  knownWorker = _workers.contains(serviceId);
-        auto       &worker      = _workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second;
+        const auto  workerIt    = _workers.find(serviceId);
+        const auto  knownWorker = workerIt != _workers.end();
 
         const auto command = message.command;
         switch (command) {
         case mdp::Command::Ready: {
             std::ignore = requireService(message.serviceName, std::string(message.data.asString()));
-            workerWaiting(worker);
+            workerWaiting(_workers.try_emplace(serviceId, socket, serviceId, message.serviceName, updatedWorkerExpiry()).first->second);
             registerNewService(message.serviceName);
             // notify potential listeners
             BrokerMessage notify;
@@ -983,7 +983,8 @@ private:
         case mdp::Command::Partial:
         case mdp::Command::Final: {
             if (knownWorker) {
-                auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
+                auto &worker = workerIt->second;
+                auto  client = _clients.find(message.serviceName); // serviceName=clientSourceID
                 if (client != _clients.end()) { // drop if client unknown/disappeared
                     message.sourceId     = message.serviceName; // serviceName=clientSourceID
                     message.serviceName  = worker.serviceName;
@@ -1003,24 +1004,27 @@ private:
                     worker.expiry = updatedWorkerExpiry(); // more to come, the worker is still busy
                 }
             } else {
-                disconnectWorker(worker);
+                sendDisconnect(socket, serviceId, message.serviceName, "unknown worker");
             }
             break;
         }
         case mdp::Command::Notify: {
             message.protocolName = mdp::clientProtocol;
             message.command      = mdp::Command::Final;
-            message.serviceName  = worker.serviceName;
+            if (knownWorker) {
+                message.serviceName = workerIt->second.serviceName;
+            }
 
             dispatchMessageToMatchingSubscribers(std::move(message));
             break;
         }
         case mdp::Command::Heartbeat:
             if (knownWorker) {
-                worker.expiry = updatedWorkerExpiry();
+                workerIt->second.expiry = updatedWorkerExpiry();
             } else {
-                disconnectWorker(worker);
+                sendDisconnect(socket, serviceId, message.serviceName, "unknown worker");
             }
+            break;
         default:
             break;
         }
@@ -1037,15 +1041,19 @@ private:
     }
 
     void disconnectWorker(Worker &worker) {
+        sendDisconnect(worker.socket, worker.id, worker.serviceName, "broker shutdown");
+        deleteWorker(worker);
+    }
+
+    void sendDisconnect(const zmq::Socket &socket, const std::string &workerId, const std::string &serviceName, const char *reason) {
         BrokerMessage disconnect;
         disconnect.protocolName = mdp::workerProtocol;
         disconnect.command      = mdp::Command::Disconnect;
-        disconnect.sourceId     = worker.id;
-        disconnect.serviceName  = worker.serviceName;
-        disconnect.data         = IoBuffer("broker shutdown");
+        disconnect.sourceId     = workerId;
+        disconnect.serviceName  = serviceName;
+        disconnect.data         = IoBuffer(reason);
         disconnect.rbac         = _rbac;
-        zmq::send(std::move(disconnect), worker.socket).assertSuccess();
-        deleteWorker(worker);
+        zmq::send(std::move(disconnect), socket).assertSuccess();
     }
 
     mdp::Message createDnsReadyMessage() {
-- 
2.43.0


From bc94ab43bfd25431a3067f7a8d79624d4ec3704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:51 +0000
Subject: [PATCH 24/70] fix: requests were still given to a worker that had
 disconnected

---
 src/majordomo/include/majordomo/Broker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 47f9372..22f2527 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -978,7 +978,9 @@ private:
             break;
         }
         case mdp::Command::Disconnect:
-            // deleteWorker(worker); // TODO handle? also commented out in java impl
+            if (knownWorker) {
+                deleteWorker(workerIt->second);
+            }
             break;
         case mdp::Command::Partial:
         case mdp::Command::Final: {
-- 
2.43.0


From e853e675d4fafd82f58d7f51e2e50b5985289633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:19 +0000
Subject: [PATCH 25/70] fix: a repeated subscription or somebody else's
 unsubscription changed how many subscribers a topic had

---
 src/majordomo/include/majordomo/Broker.hpp | 43 +++++++++++-----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 22f2527..07df9fe 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -584,6 +584,23 @@ private:
         }
     }
 
+    void subscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        if (_subscribedClientsByTopic[topic].emplace(clientId).second) {
+            subscribe(topic);
+        }
+    }
+
+    void unsubscribeClient(const mdp::Topic &topic, const std::string &clientId) {
+        auto it = _subscribedClientsByTopic.find(topic);
+        if (it == _subscribedClientsByTopic.end() || it->second.erase(clientId) == 0) {
+            return; // was not subscribed
+        }
+        if (it->second.empty()) {
+            _subscribedClientsByTopic.erase(it);
+        }
+        unsubscribe(topic);
+    }
+
     bool receivePubMessage(const zmq::Socket &socket) {
         zmq::MessageFrame frame;
         const auto        result = frame.receive(socket, ZMQ_DONTWAIT);
@@ -632,9 +649,7 @@ private:
                 return;
             }
 
-            subscribe(subscription);
-            auto [it, inserted] = _subscribedClientsByTopic.try_emplace(subscription);
-            it->second.emplace(message.sourceId);
+            subscribeClient(subscription, message.sourceId);
         } break;
         case mdp::Command::Unsubscribe: {
             mdp::Topic subscription;
@@ -645,14 +660,7 @@ private:
                 return;
             }
 
-            unsubscribe(subscription);
-            auto it = _subscribedClientsByTopic.find(subscription);
-            if (it != _subscribedClientsByTopic.end()) {
-                it->second.erase(message.sourceId);
-                if (it->second.empty()) {
-                    _subscribedClientsByTopic.erase(it);
-                }
-            }
+            unsubscribeClient(subscription, message.sourceId);
         } break;
         default:
             break;
@@ -688,9 +696,7 @@ private:
                     return false;
                 }
 
-                subscribe(*subscription);
-                auto [it, inserted] = _subscribedClientsByTopic.try_emplace(*subscription);
-                it->second.emplace(message.sourceId);
+                subscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Unsubscribe: {
@@ -702,14 +708,7 @@ private:
                     return false;
                 }
 
-                unsubscribe(*subscription);
-                auto it = _subscribedClientsByTopic.find(*subscription);
-                if (it != _subscribedClientsByTopic.end()) {
-                    it->second.erase(message.sourceId);
-                    if (it->second.empty()) {
-                        _subscribedClientsByTopic.erase(it);
-                    }
-                }
+                unsubscribeClient(*subscription, message.sourceId);
                 return true;
             }
             case mdp::Command::Heartbeat:
-- 
2.43.0


From 55028cafb9d6e662eab11e7a1e66015bfbc50a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:19 +0000
Subject: [PATCH 26/70] fix: a client expired however often it sent requests

---
 src/majordomo/include/majordomo/Broker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 07df9fe..88b8f74 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -719,6 +719,7 @@ private:
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
+            client->second.expiry   = updatedClientExpiry();
             client->second.requests.emplace_back(std::move(message));
 
             return true;
-- 
2.43.0


From f305230cb2e4bb7e7b9e98371160132b413ef314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:19 +0000
Subject: [PATCH 27/70] fix: messages of an unknown protocol were taken for
 messages from workers, and any command from a client was passed on to a
 worker

---
 src/majordomo/include/majordomo/Broker.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 88b8f74..88d0d66 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -713,9 +713,12 @@ private:
             }
             case mdp::Command::Heartbeat:
                 sendDnsHeartbeats(true);
+                return true;
+            case mdp::Command::Get:
+            case mdp::Command::Set:
                 break;
             default:
-                break;
+                return true; // not a request
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
@@ -725,7 +728,9 @@ private:
             return true;
         }
 
-        processWorker(socket, std::move(message));
+        if (message.protocolName == mdp::workerProtocol) {
+            processWorker(socket, std::move(message));
+        }
         return true;
     }
 
-- 
2.43.0


From 95227bc5c9a1d4f141f1b39143c428c229eb0647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:19 +0000
Subject: [PATCH 28/70] fix: of several requests taken from the REST interface
 at once all but the first waited for the next heartbeat

---
 src/majordomo/include/majordomo/Broker.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 88d0d66..3306378 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -516,7 +516,7 @@ public:
             anythingReceived |= receiveMessage(_subSocket);
             anythingReceived |= receivePubMessage(_pubSocket);
 
-            processClients();
+            anythingReceived |= processClients();
 
             if (loopCount % 10 == 0) { // perform maintenance task every 10th iteration
                 purgeWorkers();
@@ -852,7 +852,8 @@ private:
         }
     }
 
-    void processClients() {
+    // @return true if requests may be left
+    bool processClients() {
         for (auto &[senderId, client] : _clients) {
             if (client.requests.empty())
                 continue;
@@ -874,7 +875,7 @@ private:
                     service->putMessage(std::move(clientMessage));
                     dispatch(*service);
                 }
-                return;
+                return true;
             }
 
             // not implemented -- reply according to Majordomo Management Interface (MMI) as defined in http://rfc.zeromq.org/spec:8
@@ -894,6 +895,7 @@ private:
                 zmq::send(std::move(reply), client.socket.value()).assertSuccess();
             }
         }
+        return std::ranges::any_of(_clients, [](const auto &c) { return !c.second.requests.empty(); });
     }
 
     void purgeClients() {
-- 
2.43.0


From 8f519393c1382ee8b940852ee9a13ae770eecb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:49 +0000
Subject: [PATCH 29/70] fix: a message whose topic is not a URI ended the
 broker and the workers with an exception

---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..63cf6cf 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -442,7 +442,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (const std::exception &) {
+        return {}; // malformed topic
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0


From 03acc05914067551ce2655bd6f9048bcf77f0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 30/70] fix: the socket a thread sends notifications through
 was removed while in use

---
 src/majordomo/include/majordomo/Worker.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 8a7e757..71635b7 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -141,7 +141,7 @@ public:
         message.command      = mdp::Command::Notify;
         message.serviceName  = serviceName.data(); // TODO unnecessary copy
         message.rbac         = _defaultRbacToken;
-        return notificationHandlerForThisThread().send(std::move(message));
+        return sendNotificationFromThisThread(std::move(message));
     }
 
     void disconnect() {
@@ -194,17 +194,17 @@ private:
         return std::format("inproc://workers{}-{}/notify", name, worker_detail::nextWorkerId());
     }
 
-    NotificationHandler &notificationHandlerForThisThread() {
+    bool sendNotificationFromThisThread(mdp::Message &&message) { // N.B. the lock is held while sending: unused handlers are cleaned up concurrently
         const auto threadId = std::this_thread::get_id();
         {
             const std::shared_lock readLock(_notificationHandlersLock); // optimistic read -- thread is known/already initialised
             if (_notificationHandlers.contains(threadId)) {
-                return _notificationHandlers.at(threadId);
+                return _notificationHandlers.at(threadId).send(std::move(message));
             }
         }
         const std::unique_lock writeLock(_notificationHandlersLock); // nothing found -> need to allocate/initialise new socket
         _notificationHandlers.emplace(std::piecewise_construct, std::forward_as_tuple(threadId), std::forward_as_tuple(_context, _notifyAddress));
-        return _notificationHandlers.at(threadId);
+        return _notificationHandlers.at(threadId).send(std::move(message));
     }
 
     void cleanupNotificationHandlers() {
-- 
2.43.0


From 5991f9212c0b51ee94cba7e2714530edbcc63f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 31/70] fix: a notification with an invalid topic ended the
 worker with an exception

---
 src/majordomo/include/majordomo/Worker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 71635b7..60914a7 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -279,7 +279,12 @@ private:
 
     bool receiveNotificationMessage() {
         if (auto message = zmq::receive<mdp::MessageFormat::WithoutSourceId>(_notifyListenerSocket)) {
-            const auto currentSubscription      = mdp::Topic::fromMdpTopic(message->topic);
+            mdp::Topic currentSubscription;
+            try {
+                currentSubscription = mdp::Topic::fromMdpTopic(message->topic);
+            } catch (...) {
+                return true; // malformed topic, ignore
+            }
 
             const auto matchesNotificationTopic = [this, &currentSubscription](const auto &activeSubscription) {
                 return _subscriptionMatcher(currentSubscription, activeSubscription);
-- 
2.43.0


From 559f6c7914099a8d7b9ce577af18f731acee7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 32/70] fix: an unexpected message from the broker ended the
 worker

---
 src/majordomo/include/majordomo/Worker.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 60914a7..dd01285 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -330,11 +330,8 @@ private:
                 }
                 return;
             default:
-                assert(false && "not implemented");
-                return;
+                return; // not meant for workers, ignore
             }
-        } else {
-            assert(false && "not implemented");
         }
     }
 
-- 
2.43.0


From a73e10c04168699c5aa3f25f7e687606255b0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:37 +0000
Subject: [PATCH 33/70] fix: after a reconnect the worker kept subscriptions
 that the broker does not have any more

---
 src/majordomo/include/majordomo/Worker.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index dd01285..9267542 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -385,6 +385,10 @@ private:
         _pollerItems[1].socket = nullptr;
         _workerSocket.reset();
         _pubSocket.reset();
+        {
+            std::lock_guard lockGuard(_activeSubscriptionsLock);
+            _activeSubscriptions.clear(); // the broker tells its subscriptions again
+        }
 
         _workerSocket.emplace(_context, ZMQ_DEALER);
 
-- 
2.43.0


From 6318ae32907ce96c34c3197cf617dfe255e1da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 34/70] fix: two different topics could have the same
 subscription text since the keys of the parameters were not encoded

---
 src/core/include/Topic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/Topic.hpp b/src/core/include/Topic.hpp
index 3fc228f..55cbae6 100644
--- a/src/core/include/Topic.hpp
+++ b/src/core/include/Topic.hpp
@@ -119,7 +119,7 @@ public:
             if (!isFirst) {
                 zmqTopic += "&"s;
             }
-            zmqTopic += key;
+            zmqTopic += opencmw::URI<>::encode(key);
             if (value) {
                 zmqTopic += "="s + opencmw::URI<>::encode(*value);
             }
-- 
2.43.0


From 002878e15818f266a62e9b4c4131fe91afe86d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 35/70] fix: the number filter took numbers that are out of
 range for 0

---
 src/core/include/Filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/Filters.hpp b/src/core/include/Filters.hpp
index f407d8c..e963b3a 100644
--- a/src/core/include/Filters.hpp
+++ b/src/core/include/Filters.hpp
@@ -45,11 +45,11 @@ class NumberFilter : public AbstractFilter {
 public:
     bool operator()(std::string_view notified, std::string_view subscribed) const override {
         T          subscribedNumber = {};
-        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc != std::errc{}) {
             return false;
         }
         T          notifiedNumber = {};
-        if (const auto rc = parseNumber(notified, notifiedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(notified, notifiedNumber); rc != std::errc{}) {
             return false;
         }
 
-- 
2.43.0


From f412e4f9ad7cbb891e01477423cd3192ebb33bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 36/70] fix: timing selectors with numbers out of range or
 followed by other characters were accepted

---
 src/core/include/TimingCtx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 425fe40..b30e375 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -157,7 +157,7 @@ public:
 
             if (WILDCARD != valueString) {
                 int32_t intValue = 0;
-                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec == std::errc::invalid_argument) {
+                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec != std::errc{} || result.ptr != valueString.data() + valueString.size()) {
                     _hash = 0;
                     throw std::invalid_argument(std::format("Value: '{}' in '{}' is not a valid integer", valueString, tag));
                 }
-- 
2.43.0


From 060964bf5a1efdbea24d650500abd12a2fde4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 37/70] fix: an invalid timing selector was taken for a
 wildcard when looked at a second time

---
 src/core/include/TimingCtx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index b30e375..1fcddd8 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -125,6 +125,7 @@ public:
         }
 
         if (!upperCaseSelector.starts_with(SELECTOR_PREFIX)) {
+            _hash = 0;
             throw std::invalid_argument(std::format("Invalid tag '{}'", selector.value()));
         }
         auto upperCaseSelectorView = std::string_view{ upperCaseSelector.data() + SELECTOR_PREFIX.length(), upperCaseSelector.size() - SELECTOR_PREFIX.length() };
-- 
2.43.0


From 11869a8f302f9fdff9d561df1a3c0a8899cb63dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 38/70] fix: timing contexts were compared with outdated values
 of the other one after its selector had changed

---
 src/core/include/TimingCtx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 1fcddd8..efe9b78 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -57,7 +57,7 @@ public:
     [[nodiscard]] int32_t gid() const { parse(); return _gid; }
 
     // these are not commutative, and must not be confused with operator==
-    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
+    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); other.parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
 
     [[nodiscard]] bool matchesWithBpcts(const TimingCtx &other) const {
         auto match = [](units::isq::Time auto lhs, units::isq::Time auto rhs) { return rhs == 0 || lhs == rhs; };
@@ -68,10 +68,12 @@ public:
 
     [[nodiscard]] auto operator<=>(const TimingCtx &other) const {
         parse();
+        other.parse();
         return std::tie(_cid, _sid, _pid, _gid, bpcts.value()) <=> std::tie(other._cid, other._sid, other._pid, other._gid, other.bpcts.value());
     }
     [[nodiscard]] bool operator==(const TimingCtx &other) const {
         parse();
+        other.parse();
         return bpcts == other.bpcts && _cid == other._cid && _sid == other._sid && _pid == other._pid && _gid == other._gid;
     }
 
-- 
2.43.0


From bfcec13a01f26f54c81a367a0a838ef92f41e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:57 +0000
Subject: [PATCH 39/70] fix: a long timing selector (e.g. in the topic of a
 subscription) overflowed the stack

---
 src/core/include/TimingCtx.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index efe9b78..34b31da 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -23,7 +23,13 @@ inline constexpr void hash_combine(std::size_t &seed, const T &v) noexcept {
     std::hash<T> hasher;
     seed ^= hasher(v) + 0x9e3779b9 + (seed << 6) + (seed >> 2);
 }
-constexpr uint32_t           const_hash(char const *input) noexcept { return *input ? static_cast<uint32_t>(*input) + 33 * const_hash(input + 1) : 5381; } // NOLINT
+constexpr uint32_t const_hash(char const *input) noexcept {
+    uint32_t hash = 5381;
+    for (auto pos = std::char_traits<char>::length(input); pos > 0; --pos) {
+        hash = static_cast<uint32_t>(input[pos - 1]) + 33 * hash;
+    }
+    return hash;
+}
 constexpr basic_fixed_string TIMING_DESCRIPTION = "FAIR Timing Selector (e.g. 'FAIR.SELECTOR.C=1:S=2:P=3:T=4'. 'FAIR.SELECTOR.ALL' or 'ALL'";
 } // namespace detail
 
-- 
2.43.0


From c004dfa657164156bddd3f71cd40df4507cd2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:17 +0000
Subject: [PATCH 40/70] fix: reading beyond the end of an IoBuffer is an error
 instead of an out-of-bounds access

---
 src/serialiser/include/IoBuffer.hpp           | 62 +++++++++++++------
 .../include/IoSerialiserCmwLight.hpp          | 10 +--
 src/serialiser/include/IoSerialiserYaS.hpp    | 10 +--
 3 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..0821f35 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -204,8 +204,28 @@ private:
         }
     }
 
-    std::string_view extractStringView() const noexcept {
-        const auto strLength = static_cast<std::size_t>(swapEndian(get<int32_t>()) - 1);
+    /// reading beyond the end of the data is an error
+    constexpr void checkReadable(const std::size_t nBytes) const {
+        if (_position > _size || nBytes > _size - _position) {
+            throw std::out_of_range(std::format("requested {} bytes at {} are out-of-range [0,{}]", nBytes, _position, _size));
+        }
+    }
+
+    /// checks that nElements elements of at least elementSize bytes each can still be read
+    constexpr void checkReadable(const std::size_t nElements, const std::size_t elementSize) const {
+        checkReadable(0);
+        if (nElements > (_size - _position) / elementSize) {
+            throw std::out_of_range(std::format("requested {} elements at {} are out-of-range [0,{}]", nElements, _position, _size));
+        }
+    }
+
+    std::string_view extractStringView() const {
+        const auto wireLength = swapEndian(get<int32_t>()); // includes the zero-terminating byte
+        if (wireLength < 1) {
+            throw std::out_of_range(std::format("invalid string length {} at {}", wireLength, _position));
+        }
+        checkReadable(static_cast<std::size_t>(wireLength));
+        const auto strLength = static_cast<std::size_t>(wireLength - 1);
         auto       start     = reinterpret_cast<const char *>(_buffer + _position);
         _position += strLength + 1LU; // +1 for the zero-terminating byte
         return { start, strLength };
@@ -324,7 +344,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || sizeof(R) > _size - index) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
@@ -414,8 +434,9 @@ public:
     }
 
     template<typename R, typename RawType = std::remove_cvref_t<R>>
-    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get() const noexcept {
+    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get() const {
         if constexpr (Number<R>) {
+            checkReadable(sizeof(R));
             const std::size_t localPosition = _position;
             _position += sizeof(R);
             R value;
@@ -430,21 +451,26 @@ public:
         }
     }
 
-    template<ArrayOrVector Container, bool checkRange = false>
-    OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const noexcept(!checkRange) {
-        using R                        = Container::value_type;
-        const auto        arraySize    = std::min(static_cast<std::size_t>(get<int32_t>()), _size - _position);
-        const std::size_t minArraySize = std::min(arraySize, requestedSize);
+    template<ArrayOrVector Container>
+    OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const {
+        using R             = Container::value_type;
+        const auto wireSize = get<int32_t>();
+        if (wireSize < 0) {
+            throw std::out_of_range(std::format("invalid array size {} at {}", wireSize, _position));
+        }
+        const std::size_t minArraySize = std::min(static_cast<std::size_t>(wireSize), requestedSize);
+        if constexpr (opencmw::StringLike<R>) {
+            checkReadable(minArraySize, sizeof(int32_t) + sizeof(char)); // length and zero-terminating byte
+        } else {
+            checkReadable(minArraySize, sizeof(R));
+        }
 
         if constexpr (opencmw::is_vector<Container>) {
             input.resize(minArraySize);
         } else if constexpr (opencmw::is_array<Container>) {
-            if constexpr (checkRange) {
-                if (std::tuple_size_v<Container> < minArraySize) {
-                    throw std::out_of_range(std::format("std::array<SupportedType, size = {}> wire-format size does not match design {}", std::tuple_size_v<Container>, minArraySize));
-                }
+            if (std::tuple_size_v<Container> < minArraySize) {
+                throw std::out_of_range(std::format("std::array<SupportedType, size = {}> wire-format size does not match design {}", std::tuple_size_v<Container>, minArraySize));
             }
-            assert(std::tuple_size_v<Container> >= minArraySize && "std::array<SupportedType, size> wire-format size does not match design");
         }
 
         if constexpr (std::is_trivially_copyable_v<R> && !std::is_same_v<R, bool> && !opencmw::StringLike<R>) {
@@ -460,14 +486,14 @@ public:
     }
 
     template<SupportedType R>
-    OPENCMW_FORCEINLINE constexpr std::vector<R> getArray(std::vector<R> &&input = std::vector<R>(), const std::size_t requestedSize = SIZE_MAX) noexcept { return getArray(input, requestedSize); }
+    OPENCMW_FORCEINLINE constexpr std::vector<R> getArray(std::vector<R> &&input = std::vector<R>(), const std::size_t requestedSize = SIZE_MAX) { return getArray(input, requestedSize); }
     template<SupportedType R, std::size_t size>
-    [[maybe_unused]] OPENCMW_FORCEINLINE constexpr std::array<R, size> getArray(std::array<R, size> &&input = std::array<R, size>(), const std::size_t requestedSize = size) noexcept { return getArray(input, requestedSize); }
+    [[maybe_unused]] OPENCMW_FORCEINLINE constexpr std::array<R, size> getArray(std::array<R, size> &&input = std::array<R, size>(), const std::size_t requestedSize = size) { return getArray(input, requestedSize); }
 
     template<StringArray R, typename T = typename R::value_type>
-    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R &get(R &input, const std::size_t requestedSize = SIZE_MAX) noexcept { return getArray(input, requestedSize); }
+    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R &get(R &input, const std::size_t requestedSize = SIZE_MAX) { return getArray(input, requestedSize); }
     template<StringArray R, typename T = typename R::value_type>
-    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get(R &&input = R(), const std::size_t requestedSize = SIZE_MAX) noexcept { return getArray(std::forward<R>(input), requestedSize); }
+    [[nodiscard]] OPENCMW_FORCEINLINE constexpr R get(R &&input = R(), const std::size_t requestedSize = SIZE_MAX) { return getArray(std::forward<R>(input), requestedSize); }
 };
 
 } // namespace opencmw
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 0809df6..1989ca9 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -83,7 +83,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<T>();
     }
 };
@@ -96,7 +96,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<T>();
     }
 };
@@ -127,7 +127,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const int nx = buffer.get<int32_t>();
         const int ny = buffer.get<int32_t>();
         buffer.getArray(value, nx * ny);
@@ -179,7 +179,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
@@ -227,7 +227,7 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         }
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) {
         value.clear();
         auto n_elems = buffer.get<int32_t>();
         for (int i = 0; i < n_elems; i++) {
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 3896885..0e1ccfe 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -84,7 +84,7 @@ struct IoSerialiser<YaS, T> {
     OPENCMW_FORCEINLINE constexpr static void    serialise(IoBuffer &buffer, FieldDescription auto const    &/*field*/, const T &value) noexcept {
         buffer.put(value);
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<T>();
     }
 };
@@ -95,7 +95,7 @@ struct IoSerialiser<YaS, T> {
     OPENCMW_FORCEINLINE constexpr static void    serialise(IoBuffer &buffer, FieldDescription auto const    &/*field*/, const T &value) noexcept {
         buffer.put<opencmw::IoBuffer::MetaInfo::WITH, T>(value); // N.B. ensure that the wrapped value and not the annotation itself is serialised
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         value = buffer.get<std::string>();
     }
 };
@@ -107,7 +107,7 @@ struct IoSerialiser<YaS, T> {
         buffer.put(std::array<int32_t, 1>{ static_cast<int32_t>(value.size()) });
         buffer.put(value);
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         buffer.getArray<int32_t, 1>();
         buffer.getArray(value);
     }
@@ -126,7 +126,7 @@ struct IoSerialiser<YaS, T> {
         buffer.put(dims);
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<typename T::size_t_>(dimWire[i]);
@@ -155,7 +155,7 @@ struct IoSerialiser<YaS, std::set<V>> {
             buffer.put(v);
         }
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) {
         auto           size = buffer.getArray<int32_t, 1>();
         std::vector<V> data{ size[0] };
         buffer.getArray(data, static_cast<size_t>(size[0]));
-- 
2.43.0


From cded54ce50cca0c2b0ba0013822ccceb67be4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:17 +0000
Subject: [PATCH 41/70] fix: moved-from IoBuffer is empty, swap and assignment
 exchange the allocators too

---
 src/serialiser/include/IoBuffer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 0821f35..49bca7f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -289,9 +289,9 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
@@ -302,6 +302,10 @@ public:
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
         std::swap(_buffer, other._buffer);
+        // the memory belongs to its allocator. N.B. polymorphic_allocator is not assignable
+        auto *resource = _allocator.resource();
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::construct_at(&other._allocator, resource);
     }
 
     IoBuffer &operator=(const IoBuffer &other) {
-- 
2.43.0


From 6f272bb38d5690ebc6b0a5cdc6453864fee245f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 42/70] fix: nested structures of equal name but different
 number of members wrote beyond the set-fields bit field

---
 src/serialiser/include/IoSerialiser.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 570460f..8c282fc 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -274,12 +274,15 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
     using ValueType = std::remove_reference_t<decltype(value)>;
     // initialize bitfield indicating which fields have been set
     if constexpr (check != ProtocolCheck::IGNORE) {
-        if (info.setFields.contains(parent.fieldName)) {
-            std::fill(info.setFields[parent.fieldName].begin(), info.setFields[parent.fieldName].end(), false);
-        } else {
-            info.setFields[parent.fieldName] = std::vector<bool>(refl::reflect<ValueType>().members.size);
-        }
+        info.setFields[parent.fieldName].assign(refl::reflect<ValueType>().members.size, false);
     }
+    [[maybe_unused]] const auto markAsSet = [&info, &parent](const std::size_t index) {
+        auto &setFields = info.setFields[parent.fieldName];
+        if (setFields.size() < refl::reflect<ValueType>().members.size) { // a nested structure of the same name has less members
+            setFields.resize(refl::reflect<ValueType>().members.size);
+        }
+        setFields[index] = true;
+    };
 
     // read initial field header
     auto field = newFieldHeader<protocol, true>(buffer, "", parent.hierarchyDepth, value, -1);
@@ -380,7 +383,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 }
                 IoSerialiser<protocol, MemberType>::deserialise(buffer, field, getAnnotatedMember(unwrapPointerCreateIfAbsent(member(value))));
                 if constexpr (check != ProtocolCheck::IGNORE) {
-                    info.setFields[parent.fieldName][static_cast<uint64_t>(fieldIndex)] = true;
+                    markAsSet(static_cast<std::size_t>(fieldIndex));
                 }
             }
         });
@@ -400,7 +403,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     field.hierarchyDepth--;
                     field.subfields = previousSubFields - 1;
                     if constexpr (check != ProtocolCheck::IGNORE) {
-                        info.setFields[parent.fieldName][static_cast<uint64_t>(fieldIndex)] = true;
+                        markAsSet(static_cast<std::size_t>(fieldIndex));
                     }
                 }
             });
-- 
2.43.0


From dea2f6b48158c59ec33ed61023af96e0e9a3babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 43/70] fix: fields of another type, unit or access mode were
 not skipped for formats without field sizes

---
 src/serialiser/include/IoSerialiser.hpp | 47 +++++++++++++++++--------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 8c282fc..8ac6f49 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -250,6 +250,25 @@ OPENCMW_FORCEINLINE void moveToFieldEndBufferPosition(IoBuffer &buffer, const Fi
     }
 }
 
+/// whether the protocol is able to step over data of fields for which the header does not provide the size
+template<SerialiserProtocol protocol>
+constexpr bool isSkippable = requires(IoBuffer &buffer, FieldDescriptionLong &field) { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); };
+
+/// moves behind the data of a field that is not going to be used
+template<SerialiserProtocol protocol>
+constexpr void skipFieldData(IoBuffer &buffer, FieldDescriptionLong &field) {
+    if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
+        moveToFieldEndBufferPosition(buffer, field);
+    } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
+        if constexpr (isSkippable<protocol>) {
+            if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
+                buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
+            }
+            IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
+        }
+    }
+}
+
 template<ProtocolCheck check, typename... ErrorArgs>
 neverinline constexpr void handleDeserialisationError(DeserialiserInfo &info, std::format_string<ErrorArgs...> errorFormat, ErrorArgs &&...errorArgs) noexcept(check != ProtocolCheck::ALWAYS) {
     const auto text = std::format(errorFormat, std::forward<ErrorArgs>(errorArgs)...);
@@ -324,16 +343,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 handleDeserialisationError<check>(info, "missing field (type:{}) {}::{} at buffer[{}, size:{}]", field.intDataType, parent.fieldName, field.fieldName, buffer.position(), buffer.size());
                 info.additionalFields.emplace_back(std::make_tuple(std::format("{}::{}", parent.fieldName, field.fieldName), field.intDataType));
             }
-            if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
-                moveToFieldEndBufferPosition(buffer, field);
-            } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
-                if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
-                    if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
-                        buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
-                    }
-                    IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
-                }
-            }
+            skipFieldData<protocol>(buffer, field);
             continue;
         }
 
@@ -343,14 +353,21 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
 
             using MemberType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(member(value))))>;
             if constexpr (!is_writable(member) || is_static(member)) {
-                moveToFieldEndBufferPosition(buffer, field);
+                skipFieldData<protocol>(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
+                if (field.intDataType != IoSerialiser<protocol, START_MARKER>::getDataTypeId() && (isSkippable<protocol> || field.intDataType != IoSerialiser<protocol, OTHER>::getDataTypeId())) { // not a nested structure
+                    skipFieldData<protocol>(buffer, field);
+                    if constexpr (check != ProtocolCheck::IGNORE) {
+                        handleDeserialisationError<check>(info, "mismatched field type for {}::{} - requested type: {} (typeID: {}) got: {}", member.declarator.name, member.name, typeName<MemberType>, IoSerialiser<protocol, START_MARKER>::getDataTypeId(), field.intDataType);
+                    }
+                    return;
+                }
                 field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    moveToFieldEndBufferPosition(buffer, field);
+                    skipFieldData<protocol>(buffer, field);
                     if constexpr (check == ProtocolCheck::IGNORE) {
                         return; // don't write -> skip to next
                     }
@@ -367,17 +384,17 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     }
                     if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipFieldData<protocol>(buffer, field);
                         return;
                     }
                     if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipFieldData<protocol>(buffer, field);
                         return;
                     }
                     if (is_readonly(unwrapPointer(member(value)).getModifier())) { // should not set field via external reference
                         handleDeserialisationError<check>(info, "mismatched field access modifier for {}::{} - requested '{}' received '{}'", member.declarator.name, member.name, (unwrapPointer(member(value)).getModifier()), field.modifier);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipFieldData<protocol>(buffer, field);
                         return;
                     }
                 }
-- 
2.43.0


From 8b3c7e6f152b7b0ff0ec18300eba3dfeed007dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 44/70] fix: YaS field headers pointing outside of the buffer
 or backwards are rejected

---
 src/serialiser/include/IoSerialiser.hpp    |  6 ++++++
 src/serialiser/include/IoSerialiserYaS.hpp | 11 +++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 8ac6f49..165ea74 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -413,6 +413,9 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 }
                 using MemberType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(member(value))))>;
                 if constexpr (isReflectableClass<MemberType>()) {
+                    if (field.hierarchyDepth == std::numeric_limits<uint8_t>::max()) {
+                        throw ProtocolException("{}::{} is nested too deeply", parent.fieldName, field.fieldName);
+                    }
                     buffer.set_position(field.headerStart); // reset buffer position for the nested deserialiser to read again
                     field.hierarchyDepth++;
                     field.fieldName = sanitizeFieldName<member.name.size, member.name>(); // N.B. needed since member.name is referring to compile-time const string
@@ -428,6 +431,9 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
 
         // skip to data end if field header defines the end
         if (field.dataEndPosition != std::numeric_limits<size_t>::max() && field.dataEndPosition != buffer.position()) {
+            if (buffer.position() > field.dataEndPosition) { // N.B. never go back, otherwise the same data would be read again
+                throw ProtocolException("field reader for field {} went beyond the end ({}) of the field, buffer position: {}", field.fieldName, field.dataEndPosition, buffer.position());
+            }
             if (check != ProtocolCheck::IGNORE) {
                 handleDeserialisationError<check>(info, "field reader for field {} did not consume until the end ({}) of the field, buffer position: {}", field.fieldName, field.dataEndPosition, buffer.position());
             }
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 0e1ccfe..4d6efab 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -384,11 +384,14 @@ struct FieldHeaderReader<YaS> {
     inline static void get(IoBuffer &buffer, const DeserialiserInfo & /*info*/, FieldDescriptionLong &result) {
         result.headerStart         = buffer.position();
         result.intDataType         = buffer.get<uint8_t>(); // data type ID
-        const auto dataStartOffset = static_cast<uint64_t>(buffer.get<int32_t>());
-        const auto dataSize        = static_cast<uint64_t>(buffer.get<int32_t>());
+        const auto dataStartOffset = buffer.get<int32_t>();
+        const auto dataSize        = buffer.get<int32_t>();
         result.fieldName           = buffer.get<std::string_view>(); // full field name
-        result.dataStartPosition   = result.headerStart + dataStartOffset;
-        result.dataEndPosition     = result.headerStart + dataStartOffset + dataSize;
+        if (dataStartOffset < 0 || dataSize < 0 || static_cast<uint64_t>(dataStartOffset) < buffer.position() - result.headerStart || static_cast<uint64_t>(dataStartOffset) + static_cast<uint64_t>(dataSize) > buffer.size() - result.headerStart) {
+            throw ProtocolException("invalid header of field {} at {}: data offset {}, data size {}, buffer size {}", result.fieldName, result.headerStart, dataStartOffset, dataSize, buffer.size());
+        }
+        result.dataStartPosition   = result.headerStart + static_cast<uint64_t>(dataStartOffset);
+        result.dataEndPosition     = result.dataStartPosition + static_cast<uint64_t>(dataSize);
         // the following information is optional
         // e.g. could skip to 'headerStart + dataStartOffset' and start reading the data, or
         // e.g. could skip to 'headerStart + dataStartOffset + dataSize' and start reading the next field header
-- 
2.43.0


From 2a3124ce34f539bcde8865292c4c19b6974b8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 45/70] fix: YaS maps of structured values: check the number of
 values, remove previous entries

---
 src/serialiser/include/IoSerialiserYaS.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 4d6efab..73dfa42 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -216,7 +216,6 @@ struct IoSerialiser<YaS, T> {
 
         const auto     keyType   = buffer.get<uint8_t>();
         std::vector<K> keys;
-        keys.reserve(nElements);
         if constexpr (is_supported_number<K> || is_stringlike<K>) {
             if (yas::getDataTypeId<K>() != keyType) {
                 throw ProtocolException("key type mismatch for field {} - required {} ({}) vs. have {}", field.fieldName, yas::getDataTypeId<K>(), typeid(K).name(), keyType);
@@ -251,14 +250,19 @@ struct IoSerialiser<YaS, T> {
         } else if (valueType == yas::getDataTypeId<OTHER>()) {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
-            auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            const auto  value_elements            = static_cast<uint32_t>(buffer.get<int32_t>());
+            if (nElements != value_elements) {
+                throw ProtocolException("value array length mismatch for field {} - required {} vs. have {}", field.fieldName, nElements, value_elements);
+            }
+            value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
+                const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
                     .dataStartPosition = buffer.position(),
                     .dataEndPosition   = 0U,
                     .subfields         = 0,
-                    .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                    .fieldName         = subfieldName,
                     .intDataType       = IoSerialiser<YaS, V>::getDataTypeId(),
                     .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
                 };
-- 
2.43.0


From 3c50bc3290d5183ddb8ef4f807efd82aa2c15cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 46/70] fix: dimensions of received multi-arrays have to match
 the number of elements

---
 src/serialiser/include/IoSerialiser.hpp        | 18 ++++++++++++++++++
 .../include/IoSerialiserCmwLight.hpp           |  1 +
 src/serialiser/include/IoSerialiserJson.hpp    |  1 +
 src/serialiser/include/IoSerialiserYaS.hpp     |  1 +
 4 files changed, 21 insertions(+)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 165ea74..d3eb917 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -147,6 +147,24 @@ struct IoSerialiser {
     }
 };
 
+/// the dimensions of a received multi-array have to be backed by elements
+template<std::size_t N>
+constexpr void checkMultiArrayDimensions(const std::array<int32_t, N> &dimensions, const std::size_t nElements) {
+    std::size_t required = 1;
+    for (const auto dimension : dimensions) {
+        if (dimension < 0) {
+            throw ProtocolException("negative multi-array dimension {}", dimension);
+        }
+        if (dimension > 0 && required > std::numeric_limits<uint32_t>::max() / static_cast<std::size_t>(dimension)) {
+            throw ProtocolException("multi-array dimension {} too large", dimension);
+        }
+        required *= static_cast<std::size_t>(dimension);
+    }
+    if (required > nElements) {
+        throw ProtocolException("multi-array requires {} elements but has {}", required, nElements);
+    }
+}
+
 template<std::size_t N, refl::const_string<N> string>
 constexpr const char *sanitizeFieldName() {
     if constexpr (N > 2 && string.data[0] == 'x' && string.data[1] == '_') {
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 1989ca9..aa482ce 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -193,6 +193,7 @@ struct IoSerialiser<CmwLight, T> {
             value.offset(i - 1) = 0;
         }
         buffer.getArray(value.elements());
+        checkMultiArrayDimensions(dimWire, value.elements().size());
     }
 };
 
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index a99220b..caec3d8 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -533,6 +533,7 @@ struct IoSerialiser<Json, T> {
             throw ProtocolException("expected multi-array values");
         }
         IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, value.elements());
+        checkMultiArrayDimensions(dimWire, value.elements().size());
         FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
         if (fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId()) {
             throw ProtocolException("expected end marker");
diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 73dfa42..9356227 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -140,6 +140,7 @@ struct IoSerialiser<YaS, T> {
             value.offset(i - 1) = 0;
         }
         buffer.getArray(value.elements());
+        checkMultiArrayDimensions(dimWire, value.elements().size());
     }
 };
 
-- 
2.43.0


From 3d965da434cf60abd56a0b11ecc6866315fe0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 47/70] fix: CmwLight sizes: more than 32767 members, negative
 and too large array sizes

---
 src/serialiser/include/IoSerialiser.hpp       |  4 ++--
 .../include/IoSerialiserCmwLight.hpp          | 22 +++++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index d3eb917..8f902f9 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -85,7 +85,7 @@ struct FieldDescriptionShort {
     uint64_t         headerStart       = 0U;
     std::size_t      dataStartPosition = 0U;
     std::size_t      dataEndPosition   = 0U;
-    int16_t          subfields         = 0;
+    int32_t          subfields         = 0;
     std::string_view fieldName;
     uint8_t          intDataType    = 0U;
     uint8_t          hierarchyDepth = 0;
@@ -95,7 +95,7 @@ struct FieldDescriptionLong {
     uint64_t         headerStart;
     std::size_t      dataStartPosition;
     std::size_t      dataEndPosition;
-    int16_t          subfields = 0;
+    int32_t          subfields = 0;
     std::string_view fieldName;
     std::string_view unit;
     std::string_view quantity;
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index aa482ce..14edf4c 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -24,7 +24,11 @@ void skipRawArray(IoBuffer &buffer) {
             skipString(buffer);
         }
     } else {
-        buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(T)));
+        const auto size = buffer.get<int32_t>();
+        if (size < 0 || static_cast<std::size_t>(size) > (buffer.size() - buffer.position()) / sizeof(T)) {
+            throw ProtocolException("invalid array size {} at buffer position {} of {}", size, buffer.position(), buffer.size());
+        }
+        buffer.skip(size * static_cast<int32_t>(sizeof(T)));
     }
 }
 
@@ -38,8 +42,8 @@ inline void skipString(IoBuffer &buffer) { skipRawArray<char>(buffer); }
 
 template<typename T>
 void skipMultiArray(IoBuffer &buffer) {
-    buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(int32_t))); // skip size header
-    skipRawArray<T>(buffer);                                                      // skip elements
+    skipRawArray<int32_t>(buffer); // skip size header
+    skipRawArray<T>(buffer);       // skip elements
 }
 
 template<typename T>
@@ -128,9 +132,9 @@ struct IoSerialiser<CmwLight, T> {
     }
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
-        const int nx = buffer.get<int32_t>();
-        const int ny = buffer.get<int32_t>();
-        buffer.getArray(value, nx * ny);
+        [[maybe_unused]] const auto nx = buffer.get<int32_t>();
+        [[maybe_unused]] const auto ny = buffer.get<int32_t>();
+        buffer.getArray(value); // N.B. always provides the number of elements too
     }
 };
 
@@ -257,7 +261,11 @@ struct IoSerialiser<CmwLight, START_MARKER> {
     }
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &field, const START_MARKER &) {
-        field.subfields         = static_cast<int16_t>(buffer.get<int32_t>());
+        const auto subfields = buffer.get<int32_t>();
+        if (subfields < 0) {
+            throw ProtocolException("invalid number of members {} at buffer position {}", subfields, buffer.position());
+        }
+        field.subfields         = subfields;
         field.dataStartPosition = buffer.position();
     }
 };
-- 
2.43.0


From 7d56dfc4cb7b913f389fe37396cef15cd24ac87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 48/70] fix: CmwLight sets have the layout of the arrays whose
 data type ID they use

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 14edf4c..75dc28b 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -220,6 +220,8 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
     }
 
     constexpr static void serialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, const std::set<MemberType> &value) noexcept {
+        buffer.put(1); // N.B. same layout as for the arrays of the same data type ID
+        buffer.put(static_cast<int32_t>(value.size()));
         buffer.put(static_cast<int32_t>(value.size()));
         if constexpr (std::is_arithmetic_v<MemberType>) {
             for (const auto v : value) {
@@ -234,15 +236,18 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
 
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) {
         value.clear();
-        auto n_elems = buffer.get<int32_t>();
+        [[maybe_unused]] const auto nx      = buffer.get<int32_t>();
+        [[maybe_unused]] const auto ny      = buffer.get<int32_t>();
+        auto                        n_elems = buffer.get<int32_t>();
         for (int i = 0; i < n_elems; i++) {
             MemberType            v;
+            const std::string     subfieldName = std::format("{}[{}]", field.fieldName, i);
             FieldDescriptionShort subfield{
                 .headerStart       = buffer.position(),
                 .dataStartPosition = buffer.position(),
                 .dataEndPosition   = 0U,
                 .subfields         = 0,
-                .fieldName         = std::format("{}[{}]", field.fieldName, i),
+                .fieldName         = subfieldName,
                 .intDataType       = IoSerialiser<CmwLight, MemberType>::getDataTypeId(),
                 .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
             };
-- 
2.43.0


From 9e61cfc5b8d486bb3d59e6e94749eb62e30dbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 49/70] fix: CmwLight maps: previous entries are removed,
 entries of another type are skipped

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 75dc28b..068f75a 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -462,6 +462,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
+        value.clear();
         IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
         auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
         while (buffer.position() < buffer.size()) {
@@ -482,8 +483,8 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
                 return; // step down to previous hierarchy depth
             }
 
-            const auto [fieldValue, _] = value.insert({ std::string{ field.fieldName }, ValueType{} });
             if constexpr (isReflectableClass<ValueType>()) {
+                const auto [fieldValue, _] = value.insert({ std::string{ field.fieldName }, ValueType{} });
                 field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
                 buffer.set_position(field.headerStart); // reset the buffer position for the nested deserialiser to read again
                 ++field.hierarchyDepth;
@@ -493,10 +494,11 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, ValueType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    detail::moveToFieldEndBufferPosition(buffer, field);
+                    detail::skipFieldData<protocol>(buffer, field);
                     detail::handleDeserialisationError<check>(info, "mismatched field type for map field {} - requested type: {} (typeID: {}) got: {}", field.fieldName, typeName<ValueType>, requestedType, field.intDataType);
                     continue;
                 }
+                const auto [fieldValue, _] = value.insert({ std::string{ field.fieldName }, ValueType{} });
                 IoSerialiser<protocol, ValueType>::deserialise(buffer, field, fieldValue->second);
             }
         }
-- 
2.43.0


From b5409b2f0445cd971647fb02ebd7f22b7ccd6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 50/70] fix: JSON maps: values were lost when reading, empty
 maps and keys with special characters gave invalid JSON

---
 src/serialiser/include/IoSerialiserJson.hpp | 43 ++++++++++++++++-----
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index caec3d8..fc6be2e 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -291,9 +291,8 @@ struct FieldHeaderWriter<Json> {
             }
             return 0;
         }
-        buffer.put<WITHOUT>("\""sv);
-        buffer.put<WITHOUT>(field.fieldName);
-        buffer.put<WITHOUT>("\": "sv);
+        json::writeString(buffer, field.fieldName);
+        buffer.put<WITHOUT>(": "sv);
         using StrippedDataType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(data)))>;
         IoSerialiser<Json, StrippedDataType>::serialise(buffer, field, getAnnotatedMember(unwrapPointer(data)));
         buffer.put<WITHOUT>(",\n"sv);
@@ -597,16 +596,40 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
             memberField.fieldName = entry.first;
             FieldHeaderWriter<Json>::put<IoBuffer::WITHOUT>(buffer, memberField, entry.second);
         }
-        buffer.resize(buffer.size() - 2); // remove trailing comma
+        if (!value.empty()) {
+            buffer.resize(buffer.size() - 2); // remove trailing comma
+        }
         buffer.put<IoBuffer::MetaInfo::WITHOUT>("\n}\n"sv);
     }
     static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
-        using namespace std::string_view_literals;
-        DeserialiserInfo     info{};
-        FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
-        for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
-            auto fieldValue = value[std::string(fieldHeader.fieldName)];
-            IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
+        value.clear();
+        json::consumeWhitespace(buffer); // N.B. the opening bracket has already been read
+        if (buffer.at<uint8_t>(buffer.position()) == '}') {
+            buffer.skip<false>(1);
+            return;
+        }
+        while (true) {
+            const std::string key = json::readString(buffer);
+            json::consumeWhitespace(buffer);
+            if (buffer.get<uint8_t>() != ':') {
+                throw ProtocolException("json malformed, no colon between key/value at buffer position {}", buffer.position());
+            }
+            json::consumeWhitespace(buffer);
+            if constexpr (IoSerialiser<Json, V>::getDataTypeId() == IoSerialiser<Json, START_MARKER>::getDataTypeId()) {
+                if (buffer.get<uint8_t>() != '{') {
+                    throw ProtocolException("expected {{ at buffer position {}", buffer.position());
+                }
+            }
+            IoSerialiser<Json, V>::deserialise(buffer, field, value[K(key)]);
+            json::consumeWhitespace(buffer);
+            const auto next = buffer.get<uint8_t>();
+            if (next == '}') {
+                break;
+            }
+            if (next != ',') {
+                throw ProtocolException("expected comma or end of map at buffer position {}", buffer.position());
+            }
+            json::consumeWhitespace(buffer);
         }
     }
 };
-- 
2.43.0


From 9d6e6e730971c3c975ed9c04c31a49f0c9c776e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 51/70] fix: JSON strings: control characters are escaped,
 \\uXXXX is read as the character

---
 src/serialiser/include/IoSerialiserJson.hpp | 64 ++++++++++++++++++---
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index fc6be2e..12e2ea4 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -59,13 +59,65 @@ template<StringLike T>
             buffer.put('t');
             break;
         default:
-            buffer.put(c);
+            if (static_cast<unsigned char>(c) < 0x20U) { // control characters have to be escaped
+                constexpr std::string_view hexDigits = "0123456789abcdef";
+                buffer.put<IoBuffer::MetaInfo::WITHOUT>(std::string_view("\\u00"));
+                buffer.put(hexDigits[static_cast<unsigned char>(c) >> 4U]);
+                buffer.put(hexDigits[static_cast<unsigned char>(c) & 0xFU]);
+            } else {
+                buffer.put(c);
+            }
             break;
         }
     }
     buffer.put('"');
 }
 
+/// reads the four hex digits of an escaped UTF-16 code unit
+inline uint32_t readCodeUnit(IoBuffer &buffer) {
+    if (buffer.position() > buffer.size() || buffer.size() - buffer.position() < 4 || !isHexNumber(reinterpret_cast<const char *>(buffer.data() + buffer.position()), 4)) {
+        throw ProtocolException("illegal hex number at position {} of {}", buffer.position(), buffer.size());
+    }
+    const auto start = reinterpret_cast<const char *>(buffer.data() + buffer.position());
+    uint32_t   value = 0;
+    std::ignore      = std::from_chars(start, start + 4, value, 16);
+    buffer.skip<false>(4);
+    return value;
+}
+
+/// reads an escaped unicode character (possibly given as a pair of surrogates) and appends it UTF-8 encoded
+inline void readEscapedUnicode(IoBuffer &buffer, std::string &result) {
+    auto codePoint = readCodeUnit(buffer);
+    if (codePoint >= 0xD800U && codePoint < 0xDC00U && buffer.size() - buffer.position() >= 6 && buffer.asString(buffer.position(), 2) == "\\u") {
+        const auto position = buffer.position();
+        buffer.skip<false>(2);
+        if (const auto low = readCodeUnit(buffer); low >= 0xDC00U && low < 0xE000U) {
+            codePoint = 0x10000U + ((codePoint - 0xD800U) << 10U) + (low - 0xDC00U);
+        } else {
+            buffer.set_position(position);
+        }
+    }
+    if (codePoint >= 0xD800U && codePoint < 0xE000U) {
+        codePoint = 0xFFFDU; // unpaired surrogate
+    }
+    if (codePoint < 0x80U) {
+        result += static_cast<char>(codePoint);
+        return;
+    }
+    if (codePoint < 0x800U) {
+        result += static_cast<char>(0xC0U | (codePoint >> 6U));
+    } else {
+        if (codePoint < 0x10000U) {
+            result += static_cast<char>(0xE0U | (codePoint >> 12U));
+        } else {
+            result += static_cast<char>(0xF0U | (codePoint >> 18U));
+            result += static_cast<char>(0x80U | ((codePoint >> 12U) & 0x3FU));
+        }
+        result += static_cast<char>(0x80U | ((codePoint >> 6U) & 0x3FU));
+    }
+    result += static_cast<char>(0x80U | (codePoint & 0x3FU));
+}
+
 inline std::string readString(IoBuffer &buffer) {
     if (buffer.position() >= buffer.size()) {
         return "";
@@ -99,15 +151,9 @@ inline std::string readString(IoBuffer &buffer) {
             case 't':
                 result += '\t';
                 break;
-            case 'u': {
-                char *data = reinterpret_cast<char *>(buffer.data() + buffer.position());
-                if ((buffer.position() + 4) >= buffer.size() || !isHexNumber(data, 4)) {
-                    throw ProtocolException("illegal hex number {} at position {} of {}", buffer.asString(buffer.position(), 4), buffer.position(), buffer.size());
-                }
-                buffer.skip<false>(4); // skip escaped unicode char
-                result += '_';         // todo: implement parsing the actual unicode characters
+            case 'u':
+                readEscapedUnicode(buffer, result);
                 break;
-            }
             default:
                 throw ProtocolException("illegal escape character: \\{} at position {} of {}", buffer.at<uint8_t>(buffer.position() - 1), buffer.position(), buffer.size());
                 // todo: lenient error handling methods
-- 
2.43.0


From 1c8e20367f25c7b22031d75c8c0d74bdc76dcbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 52/70] fix: malformed JSON: no reads beyond the buffer, no
 endless loops, no unlimited recursion

---
 src/serialiser/include/IoSerialiserJson.hpp | 66 ++++++++++++---------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 12e2ea4..4085dd6 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -202,9 +202,11 @@ template<typename T, size_t N>
     }
 }
 
- constexpr void skipValue(IoBuffer &buffer);
+constexpr std::size_t maxSkipDepth = 512; // limits the recursion for values which are skipped
 
-inline void skipField(IoBuffer &buffer) {
+ constexpr void skipValue(IoBuffer &buffer, std::size_t depth = 0);
+
+inline void skipField(IoBuffer &buffer, const std::size_t depth = 0) {
     consumeWhitespace(buffer);
     std::ignore = readString(buffer);
     consumeWhitespace(buffer);
@@ -212,17 +214,17 @@ inline void skipField(IoBuffer &buffer) {
         throw ProtocolException("json malformed, no colon between key/value");
     }
     consumeWhitespace(buffer);
-    skipValue(buffer);
+    skipValue(buffer, depth);
     consumeWhitespace(buffer);
 }
 
- constexpr void skipObject(IoBuffer &buffer) {
+ constexpr void skipObject(IoBuffer &buffer, const std::size_t depth = 0) {
     if (buffer.get<uint8_t>() != '{') {
         throw ProtocolException("error: expected {");
     }
     consumeWhitespace(buffer);
     while (buffer.at<uint8_t>(buffer.position()) != '}') {
-        skipField(buffer);
+        skipField(buffer, depth + 1);
         if (buffer.at<uint8_t>(buffer.position()) == '}') break;
         if (buffer.get<uint8_t>() != ',') {
             throw ProtocolException("Expected comma to separate object fields");
@@ -234,18 +236,22 @@ inline void skipField(IoBuffer &buffer) {
 }
 
  constexpr void skipNumber(IoBuffer &buffer) {
-    while (isNumberChar(buffer.get<uint8_t>())) {
+    const auto start = buffer.position();
+    while (buffer.position() < buffer.size() && isNumberChar(buffer.at<uint8_t>(buffer.position()))) {
+        buffer.skip<false>(1);
+    }
+    if (buffer.position() == start) {
+        throw ProtocolException("json malformed, expected a value at buffer position {}", start);
     }
-    buffer.skip<false>(-1);
 }
 
- constexpr void skipArray(IoBuffer &buffer) {
+ constexpr void skipArray(IoBuffer &buffer, const std::size_t depth = 0) {
     if (buffer.get<uint8_t>() != '[') {
         throw ProtocolException("error: expected [");
     }
     consumeWhitespace(buffer);
     while (buffer.at<uint8_t>(buffer.position()) != ']') {
-        skipValue(buffer);
+        skipValue(buffer, depth + 1);
         consumeWhitespace(buffer);
         if (buffer.at<uint8_t>(buffer.position()) == ']') break;
         if (buffer.get<uint8_t>() != ',') {
@@ -257,20 +263,23 @@ inline void skipField(IoBuffer &buffer) {
     consumeWhitespace(buffer);
 }
 
- constexpr void skipValue(IoBuffer &buffer) {
+ constexpr void skipValue(IoBuffer &buffer, const std::size_t depth) {
+    if (depth > maxSkipDepth) {
+        throw ProtocolException("json value nested too deeply at buffer position {}", buffer.position());
+    }
     consumeWhitespace(buffer);
     const auto firstChar = buffer.at<int8_t>(buffer.position());
     if (firstChar == '{') {
-        skipObject(buffer);
+        skipObject(buffer, depth);
     } else if (firstChar == '[') {
-        skipArray(buffer);
+        skipArray(buffer, depth);
     } else if (firstChar == '"') {
         std::ignore = readString(buffer);
-    } else if (buffer.size() - buffer.position() > 5 && buffer.asString(buffer.position(), 5) == "false") {
+    } else if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false") {
         buffer.skip<false>(5);
-    } else if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "true") {
+    } else if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "true") {
         buffer.skip<false>(4);
-    } else if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "null") {
+    } else if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "null") {
         buffer.skip<false>(4);
     } else { // skip number
         skipNumber(buffer);
@@ -394,7 +403,14 @@ struct FieldHeaderReader<Json> {
             return;
         }
 
-        detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position());
+        const auto malformedPosition = buffer.position();
+        const auto unexpected        = buffer.at<char>(malformedPosition);
+        // there is no way to find the next field, do not read any further
+        buffer.set_position(buffer.size());
+        result.intDataType       = IoSerialiser<Json, END_MARKER>::getDataTypeId();
+        result.dataStartPosition = buffer.size();
+        result.dataEndPosition   = std::numeric_limits<size_t>::max();
+        detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, unexpected '{}' at buffer position {}", unexpected, malformedPosition);
     }
 };
 
@@ -407,12 +423,12 @@ struct IoSerialiser<Json, bool> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, bool &value) {
         using namespace std::string_view_literals;
-        if (buffer.size() - buffer.position() > 5 && buffer.asString(buffer.position(), 5) == "false"sv) {
+        if (buffer.size() - buffer.position() >= 5 && buffer.asString(buffer.position(), 5) == "false"sv) {
             buffer.skip<false>(5);
             value = false;
             return;
         }
-        if (buffer.size() - buffer.position() > 4 && buffer.asString(buffer.position(), 4) == "true"sv) {
+        if (buffer.size() - buffer.position() >= 4 && buffer.asString(buffer.position(), 4) == "true"sv) {
             buffer.skip<false>(4);
             value = false;
             value = true;
@@ -444,16 +460,10 @@ struct IoSerialiser<Json, T> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         const auto start = buffer.position();
         const auto data  = reinterpret_cast<const char *>(buffer.data());
-        // N.B. assumes that any reasonable number representation has a maximum of 30 characters
-        const auto stop = start + 30;
-
-        //        auto     stop  = 0;
-        //        for (size_t i = start; i < buffer.size(); i++) {
-        //            if (!json::isNumberChar(buffer.data()[i])) {
-        //                stop = i;
-        //                break;
-        //            }
-        //        }
+        const auto stop  = buffer.size();
+        if (start >= stop) {
+            throw ProtocolException("missing number at buffer position: {}", start);
+        }
         if constexpr (std::is_floating_point_v<T>) {
             const auto result = fast_float::from_chars(data + start, data + stop, value);
             if (result.ec != std::errc()) {
-- 
2.43.0


From 18a4223524df5f251830967d1f9be9aa1cdad6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:57 +0000
Subject: [PATCH 53/70] fix: query parameters keep the precision of floating
 point numbers

---
 src/serialiser/include/QuerySerialiser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index dfd1f6b..5c1398d 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -77,7 +77,11 @@ struct QuerySerialiser<T> {
     using FilterType = typename opencmw::NumberFilter<T>;
 
     inline static void serialise(QueryMap &m, const std::string &key, const T &value) {
-        m[key] = std::to_string(value);
+        if constexpr (std::is_floating_point_v<T>) {
+            m[key] = std::format("{}", value); // N.B. shortest representation that can be read back exactly
+        } else {
+            m[key] = std::to_string(value);
+        }
     }
 
     inline static void deserialise(const std::optional<std::string> &maybeStr, T &v) {
-- 
2.43.0


From dbc2ad1d55b31cc1b8d5c56467f17f10641c366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:28 +0000
Subject: [PATCH 54/70] fix: CmwLight: members after a map were lost, since the
 map's size replaced the number of remaining members

---
 src/serialiser/include/IoSerialiser.hpp         | 2 +-
 src/serialiser/include/IoSerialiserCmwLight.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 8f902f9..57a966e 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -200,7 +200,7 @@ constexpr int16_t getNumberOfNonNullSubfields(const T &value) {
 }
 
 template<SerialiserProtocol protocol, const bool writeMetaInfo = true, typename DataType>
-constexpr auto newFieldHeader(const IoBuffer &buffer, const char *fieldName, const int hierarchyDepth, const DataType &value, const int16_t subfields) {
+constexpr auto newFieldHeader(const IoBuffer &buffer, const char *fieldName, const int hierarchyDepth, const DataType &value, const int32_t subfields) {
     constexpr int typeID = IoSerialiser<protocol, std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(value)))>>::getDataTypeId();
     const auto    pos    = buffer.size();
     if constexpr (writeMetaInfo && is_annotated<DataType>) {
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 068f75a..2bb508b 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -463,8 +463,9 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
         value.clear();
-        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
-        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
+        auto mapField = parent; // N.B. the parent's number of remaining fields must not be overwritten by the number of map entries
+        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, mapField, START_MARKER_INST);
+        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, mapField.subfields);
         while (buffer.position() < buffer.size()) {
             DeserialiserInfo info;
             auto previousSubFields = field.subfields;
-- 
2.43.0


From 709587de50a782d03e4488afb66569661296e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:00 +0000
Subject: [PATCH 55/70] fix: receiving a read-only field without access
 modifier (CmwLight, damaged YaS) terminated the process

---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 4c2d0a9..f5b72f7 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -308,7 +308,7 @@ struct std::formatter<opencmw::ExternalModifier> {
         case RO_DEPRECATED: return std::format_to(ctx.out(), "RO_DEPRECATED");
         case RW_PRIVATE: return std::format_to(ctx.out(), "RW_PRIVATE");
         case RO_PRIVATE: return std::format_to(ctx.out(), "RO_PRIVATE");
-        case UNKNOWN: [[fallthrough]];
+        case UNKNOWN: return std::format_to(ctx.out(), "UNKNOWN"); // N.B. e.g. for protocols which do not transmit it
             default:
                 throw std::logic_error("unknown ExternalModifier state");
         }
-- 
2.43.0


From 4f41e0f3e7d3e53bdb90d2804c86a7c8e79dd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 56/70] fix: CmwLight map keys containing a zero byte were cut
 off

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 2bb508b..445e2c2 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -454,6 +454,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
                 return;
             } else { // field is a (possibly annotated) primitive type
                 FieldDescription auto field = detail::newFieldHeader<CmwLight, true>(buffer, key.c_str(), parentField.hierarchyDepth + 1, val, 0);
+                field.fieldName             = key; // N.B. the whole key, also if it contains a zero byte
                 FieldHeaderWriter<CmwLight>::put<true>(buffer, field, val);
             }
         }
-- 
2.43.0


From d4d497d84300186114e3324103449027a310c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:13 +0000
Subject: [PATCH 57/70] fix: formatting or hashing a timing context with an
 invalid selector terminated the process

---
 src/core/include/TimingCtx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 34b31da..efc3ba6 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -84,7 +84,7 @@ public:
     }
 
     template<bool forceParse = true>
-    [[nodiscard]] std::string toString() const noexcept(forceParse) {
+    [[nodiscard]] std::string toString() const noexcept(!forceParse) {
         if constexpr (forceParse) {
             parse();
         }
@@ -105,7 +105,7 @@ public:
         return std::format("{}{}", SELECTOR_PREFIX, opencmw::join(segments, ":"));
     }
 
-    [[nodiscard]] std::size_t hash() const noexcept {
+    [[nodiscard]] std::size_t hash() const {
         parse();
         std::size_t seed = 0;
         detail::hash_combine(seed, _cid);
@@ -223,7 +223,7 @@ ENABLE_REFLECTION_FOR(opencmw::TimingCtx, selector, bpcts);
 namespace std {
 template<>
 struct hash<opencmw::TimingCtx> {
-    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const noexcept {
+    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const {
         return ctx.hash();
     }
 };
-- 
2.43.0


From 6290894ef981e2c659c988094bf736e7940b37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 58/70] fix: a query parameter that is not a number (e.g.
 12abc) was refused but still changed the member

---
 src/serialiser/include/QuerySerialiser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/QuerySerialiser.hpp b/src/serialiser/include/QuerySerialiser.hpp
index 5c1398d..8664818 100644
--- a/src/serialiser/include/QuerySerialiser.hpp
+++ b/src/serialiser/include/QuerySerialiser.hpp
@@ -89,9 +89,11 @@ struct QuerySerialiser<T> {
             throw std::invalid_argument("Empty string is not a valid number");
         }
 
-        if (const auto rc = parseNumber(maybeStr.value(), v); rc == std::errc::invalid_argument) {
+        T number{};
+        if (const auto rc = parseNumber(maybeStr.value(), number); rc != std::errc{}) {
             throw std::invalid_argument(std::format("Cannot parse as number '{}'", *maybeStr));
         }
+        v = number;
     }
 };
 
-- 
2.43.0


From 5997266b37163eb9b1510f455f1a7001c0d061f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:28 +0000
Subject: [PATCH 59/70] fix: destroying a thread pool after requestShutdown()
 joined its threads twice

---
 src/core/include/ThreadPool.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 4997002..545701c 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -261,11 +261,7 @@ public:
     }
 
     ~BasicThreadPool() {
-        _shutdown = true;
-        _condition.notify_all();
-        for (auto &t : _threads) {
-            t.join();
-        }
+        requestShutdown();
     }
 
     BasicThreadPool(const BasicThreadPool &)                     = delete;
@@ -287,7 +283,9 @@ public:
         _shutdown = true;
         _condition.notify_all();
         for (auto &t : _threads) {
-            t.join();
+            if (t.joinable()) { // not yet joined by a previous shutdown request
+                t.join();
+            }
         }
     }
     [[nodiscard]] bool isShutdown() const { return _shutdown; }
-- 
2.43.0


From 38e749a83052c6b55c95fbc05e67e55a48c3e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:00 +0000
Subject: [PATCH 60/70] fix: a thread pool emptied the named callable that was
 submitted to it

---
 src/core/include/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 545701c..adab557 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -424,7 +424,7 @@ private:
             auto extracted = recycledTasks.pop();
             if (extracted.empty()) {
                 if constexpr (sizeof...(Args) == 0) {
-                    extracted.push_front(Task{ .id = _taskID.fetch_add(1U) + 1U, .func = std::move(f) });
+                    extracted.push_front(Task{ .id = _taskID.fetch_add(1U) + 1U, .func = std::decay_t<Callable>(FWD(f)) });
                 } else {
                     extracted.push_front(Task{ .id = _taskID.fetch_add(1U) + 1U, .func = std::move(std::bind_front(FWD(f), FWD(args)...)) });
                 }
@@ -432,7 +432,7 @@ private:
                 auto &task = extracted.front();
                 task.id    = _taskID.fetch_add(1U) + 1U;
                 if constexpr (sizeof...(Args) == 0) {
-                    task.func = std::move(f);
+                    task.func = std::decay_t<Callable>(FWD(f));
                 } else {
                     task.func = std::move(std::bind_front(FWD(f), FWD(args)...));
                 }
-- 
2.43.0


From 91981702c795f015c71996680df05b4f4e6a4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:27 +0000
Subject: [PATCH 61/70] fix: a thread pool worker could miss the wake-up for a
 new task or for the shutdown

---
 src/core/include/ThreadPool.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index adab557..324b408 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -227,8 +227,9 @@ class BasicThreadPool {
     static std::string           generateName() { return std::format("BasicThreadPool#{}", _globalPoolId.fetch_add(1)); }
 
     std::atomic<bool>            _initialised = ATOMIC_FLAG_INIT;
-    bool                         _shutdown    = false;
+    std::atomic<bool>            _shutdown    = false;
 
+    std::mutex                   _conditionMutex; // guards against wake-ups that get lost between checking the condition and waiting
     std::condition_variable      _condition;
     std::atomic<std::size_t>     _numTaskedQueued = 0U; // cache for _taskQueue.size()
     std::atomic<std::size_t>     _numTasksRunning = 0U;
@@ -281,7 +282,10 @@ public:
     void                      waitUntilInitialised() const { _initialised.wait(false); }
     void                      requestShutdown() {
         _shutdown = true;
-        _condition.notify_all();
+        {
+            std::scoped_lock lock(_conditionMutex);
+            _condition.notify_all();
+        }
         for (auto &t : _threads) {
             if (t.joinable()) { // not yet joined by a previous shutdown request
                 t.join();
@@ -326,7 +330,7 @@ public:
         _numTaskedQueued.fetch_add(1U);
 
         _taskQueue.push(createTask<taskName, priority, cpuID>(FWD(func), FWD(args)...));
-        _condition.notify_one();
+        notifyWorker();
         if constexpr (taskType == TaskType::IO_BOUND) {
             spinWait.spinOnce();
             spinWait.spinOnce();
@@ -334,7 +338,7 @@ public:
                 if (const auto nThreads = numThreads(); nThreads <= numTasksRunning() && nThreads <= _maxThreads) {
                     createWorkerThread();
                 }
-                _condition.notify_one();
+                notifyWorker();
                 spinWait.spinOnce();
                 spinWait.spinOnce();
             }
@@ -365,6 +369,11 @@ public:
     }
 
 private:
+    void notifyWorker() {
+        std::scoped_lock lock(_conditionMutex);
+        _condition.notify_one();
+    }
+
     void cleanupFinishedThreads() {
         std::scoped_lock lock(_threadListMutex);
         // TODO:
@@ -464,9 +473,7 @@ private:
         constexpr uint32_t N_SPIN       = 1 << 8;
         uint32_t           noop_counter = 0;
         const auto         threadID     = _numThreads.fetch_add(1);
-        std::mutex         mutex;
-        std::unique_lock   lock(mutex);
-        auto               lastUsed = std::chrono::steady_clock::now();
+        auto               lastUsed     = std::chrono::steady_clock::now();
         if (numThreads() >= _minThreads) {
             std::atomic_store_explicit(&_initialised, true, std::memory_order_release);
             _initialised.notify_all();
@@ -498,6 +505,7 @@ private:
                 noop_counter = noop_counter / 2;
                 cleanupFinishedThreads();
 
+                std::unique_lock lock(_conditionMutex);
                 _condition.wait_for(lock, keepAliveDuration, [this] { return numTasksQueued() > 0 || isShutdown(); });
             }
             // check if this thread is to be kept
-- 
2.43.0


From cc977f255557be226d1ed824e2fd4b70fdd97046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 62/70] fix: thread pools and tasks with a name that is too
 long for the system terminated the process

---
 src/core/include/ThreadPool.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 324b408..3f0087e 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -369,6 +369,11 @@ public:
     }
 
 private:
+    static std::string toThreadName(std::string name) { // the system refuses longer names
+        name.resize(std::min(name.size(), thread::THREAD_MAX_NAME_LENGTH - 1));
+        return name;
+    }
+
     void notifyWorker() {
         std::scoped_lock lock(_conditionMutex);
         _condition.notify_one();
@@ -391,7 +396,7 @@ private:
     }
 
     void updateThreadConstraints(const std::size_t threadID, std::thread &thread) const {
-        thread::setThreadName(std::format("{}#{}", _poolName, threadID), thread);
+        thread::setThreadName(toThreadName(std::format("{}#{}", _poolName, threadID)), thread);
         thread::setThreadSchedulingParameter(_schedulingPolicy, _schedulingPriority, thread);
         if (!_affinityMask.empty()) {
             if (taskType == TaskType::IO_BOUND) {
@@ -488,7 +493,7 @@ private:
                 _numTasksRunning.fetch_add(1);
                 bool nameSet = !(currentTask.name.empty());
                 if (nameSet) {
-                    thread::setThreadName(currentTask.name);
+                    thread::setThreadName(toThreadName(currentTask.name));
                 }
                 currentTask.func();
                 // execute dependent children
@@ -496,7 +501,7 @@ private:
                 _recycledTasks.push(std::move(currentTaskContainer));
                 _numTasksRunning.fetch_sub(1);
                 if (nameSet) {
-                    thread::setThreadName(std::format("{}#{}", _poolName, threadID));
+                    thread::setThreadName(toThreadName(std::format("{}#{}", _poolName, threadID)));
                 }
                 lastUsed     = std::chrono::steady_clock::now();
                 noop_counter = 0;
-- 
2.43.0


From b1e1bf3eb727aaf21e6928f59626919efcb2942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:47 +0000
Subject: [PATCH 63/70] fix: threads a pool had ended were kept for ever, and
 changing its affinity or scheduling policy failed because of them

---
 src/core/include/ThreadPool.hpp | 37 ++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 3f0087e..3a5d701 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -239,6 +239,7 @@ class BasicThreadPool {
     std::mutex                   _threadListMutex;
     std::atomic<std::size_t>     _numThreads = 0U;
     std::list<std::thread>       _threads;
+    std::list<std::thread>       _finishedThreads; // ended since they were not needed any more
 
     std::vector<bool>            _affinityMask;
     thread::Policy               _schedulingPolicy   = thread::Policy::OTHER;
@@ -286,11 +287,10 @@ public:
             std::scoped_lock lock(_conditionMutex);
             _condition.notify_all();
         }
-        for (auto &t : _threads) {
-            if (t.joinable()) { // not yet joined by a previous shutdown request
-                t.join();
-            }
+        for (std::list<std::thread> thread = takeThread(_threads); !thread.empty(); thread = takeThread(_threads)) {
+            thread.front().join();
         }
+        cleanupFinishedThreads();
     }
     [[nodiscard]] bool isShutdown() const { return _shutdown; }
 
@@ -379,19 +379,31 @@ private:
         _condition.notify_one();
     }
 
-    void cleanupFinishedThreads() {
+    std::list<std::thread> takeThread(std::list<std::thread> &threads) {
+        std::scoped_lock       lock(_threadListMutex);
+        std::list<std::thread> thread;
+        if (!threads.empty()) {
+            thread.splice(thread.begin(), threads, threads.begin());
+        }
+        return thread;
+    }
+
+    void markThisThreadFinished() { // to be joined by one of the remaining threads
         std::scoped_lock lock(_threadListMutex);
-        // TODO:
-        // (C++Ref) A thread that has finished executing code, but has not yet been
-        // joined is still considered an active thread of execution and is
-        // therefore joinable.
-        // std::erase_if(_threads, [](auto &thread) { return !thread.joinable(); });
+        const auto       self = std::find_if(_threads.begin(), _threads.end(), [](const auto &thread) { return thread.get_id() == std::this_thread::get_id(); });
+        if (self != _threads.end()) {
+            _finishedThreads.splice(_finishedThreads.end(), _threads, self);
+        }
+    }
+
+    void cleanupFinishedThreads() {
+        for (std::list<std::thread> thread = takeThread(_finishedThreads); !thread.empty(); thread = takeThread(_finishedThreads)) {
+            thread.front().join();
+        }
     }
 
     void updateThreadConstraints() {
         std::scoped_lock lock(_threadListMutex);
-        // std::erase_if(_threads, [](auto &thread) { return !thread.joinable(); });
-
         std::for_each(_threads.begin(), _threads.end(), [this, threadID = std::size_t{ 0 }](auto &thread) mutable { this->updateThreadConstraints(threadID++, thread); });
     }
 
@@ -532,6 +544,7 @@ private:
                             _recycledTasks.clear();
                             _taskQueue.clear();
                         }
+                        markThisThreadFinished();
                         running = false;
                         break;
                     }
-- 
2.43.0


From 587374d46d9bf18f34224837f1d4c6b5af9013fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 64/70] fix: setting the affinity of a thread pool changed the
 affinity of the caller instead of its workers

---
 src/core/include/ThreadPool.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index 3a5d701..b47577d 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -412,12 +412,12 @@ private:
         thread::setThreadSchedulingParameter(_schedulingPolicy, _schedulingPriority, thread);
         if (!_affinityMask.empty()) {
             if (taskType == TaskType::IO_BOUND) {
-                thread::setThreadAffinity(_affinityMask);
+                thread::setThreadAffinity(_affinityMask, thread);
                 return;
             }
             const std::vector<bool> affinityMask = distributeThreadAffinityAcrossCores(_affinityMask, threadID);
             std::cout << std::format("{}#{} affinity mask: {}", _poolName, threadID, opencmw::join(affinityMask, ",")) << std::endl;
-            thread::setThreadAffinity(affinityMask);
+            thread::setThreadAffinity(affinityMask, thread);
         }
     }
 
@@ -427,9 +427,11 @@ private:
         }
         std::vector<bool> affinityMask;
         std::size_t       coreCount = 0;
+        // each thread gets a core, also if there are fewer cores than threads
+        const auto nGroups = std::max(std::size_t{ 1 }, std::min(static_cast<std::size_t>(_minThreads), static_cast<std::size_t>(std::count(globalAffinityMask.begin(), globalAffinityMask.end(), true))));
         for (bool value : globalAffinityMask) {
             if (value) {
-                affinityMask.push_back(coreCount++ % _minThreads == threadID);
+                affinityMask.push_back(coreCount++ % nGroups == threadID % nGroups);
             } else {
                 affinityMask.push_back(false);
             }
-- 
2.43.0


From 30abcad4b66742a969ff557653329169807d64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:07 +0000
Subject: [PATCH 65/70] fix: a new thread pool worker could run tasks before
 its name, affinity and scheduling policy were set

---
 src/core/include/ThreadPool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/include/ThreadPool.hpp b/src/core/include/ThreadPool.hpp
index b47577d..44a1cc5 100644
--- a/src/core/include/ThreadPool.hpp
+++ b/src/core/include/ThreadPool.hpp
@@ -491,6 +491,9 @@ private:
     void worker() {
         constexpr uint32_t N_SPIN       = 1 << 8;
         uint32_t           noop_counter = 0;
+        {
+            std::scoped_lock lock(_threadListMutex); // held by createWorkerThread() until name, affinity and scheduling of this thread are set
+        }
         const auto         threadID     = _numThreads.fetch_add(1);
         auto               lastUsed     = std::chrono::steady_clock::now();
         if (numThreads() >= _minThreads) {
-- 
2.43.0


From dd07435577348cc777ad19dc43aeabc6264461dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:00 +0000
Subject: [PATCH 66/70] fix: the first request of a client got notifications
 and messages without a valid request id as its reply

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 87e383a..9e46409 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -345,7 +345,7 @@ class MDClientCtx : public ClientBase {
     std::unordered_map<std::string, Subscription>                  _subscriptions;
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
-    std::size_t                                                    _request_id = 0;
+    std::size_t                                                    _request_id = 1; // N.B. 0 marks messages that do not belong to a request
 
 public:
     explicit MDClientCtx(const zmq::Context &zeromq_context, const timeUnit timeout = 1s, std::string clientId = "") // todo: also pass thread pool
-- 
2.43.0


From 9afb96ff17cbe4981e6e8e740939b8ef4c71c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:32 +0000
Subject: [PATCH 67/70] fix: a message of another kind on a subscription
 repeated the callback for the notification before it

---
 src/client/include/Client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 9e46409..24d770d 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -288,7 +288,7 @@ public:
             output.id              = 0; // review if this is still needed
             return true;
         }
-        return true;
+        return false;
     }
 
     bool receive(mdp::Message &msg) override {
-- 
2.43.0


From 949c87afb42a01cd2d318c3fe9bcaa2f3bcba88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:32 +0000
Subject: [PATCH 68/70] fix: subscriptions of the same topic at two brokers
 shared one callback

---
 src/client/include/Client.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index 24d770d..ac60ed7 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -342,7 +342,7 @@ class MDClientCtx : public ClientBase {
     std::jthread                                                   _poller;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
     std::unordered_map<std::size_t, Request>                       _requests;
-    std::unordered_map<std::string, Subscription>                  _subscriptions;
+    std::unordered_map<std::string, Subscription>                  _subscriptions; // by broker and topic
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
     std::size_t                                                    _request_id = 1; // N.B. 0 marks messages that do not belong to a request
@@ -359,8 +359,16 @@ public:
         return { "mdp", "mdp+tcp", "mdp+inproc", "mds", "mds+tcp", "mds+inproc" }; // majordomo protocol and subscription protocol, if transport is unspecified, tcp is used if authority contains a port
     }
 
+    static URI<STRICT> getBaseUri(const URI<STRICT> &uri) {
+        return URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
+    }
+
+    static std::string getSubscriptionKey(const URI<STRICT> &baseUri, std::string_view zmqTopic) {
+        return std::format("{}{}", baseUri.str(), zmqTopic);
+    }
+
     std::unique_ptr<MDClientBase> &getClient(const URI<STRICT> &uri) {
-        auto baseUri = URI<STRICT>::factory(uri).setQuery({}).path("").fragment("").build();
+        auto baseUri = getBaseUri(uri);
         if (_clients.contains(baseUri)) {
             return _clients.at(baseUri);
         }
@@ -394,7 +402,7 @@ public:
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
-                _subscriptions.insert({ mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic(), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
+                _subscriptions.insert({ getSubscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Unsubscribe) {
                 _requests.erase(0); // todo: lookup correct subscription
             }
@@ -462,8 +470,8 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (_subscriptions.contains(receivedEvent.serviceName)) {
-                        _subscriptions.at(receivedEvent.serviceName).callback(receivedEvent); // callback
+                    if (const auto key = getSubscriptionKey(uri, receivedEvent.serviceName); _subscriptions.contains(key)) {
+                        _subscriptions.at(key).callback(receivedEvent); // callback
                     }
                     if (_requests.contains(receivedEvent.id)) {
                         _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-- 
2.43.0


From a4dfbb191da847514dea8d799df77947e29be342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:57 +0000
Subject: [PATCH 69/70] fix: the callback of a cancelled subscription stayed in
 place and was called instead of that of a later one

---
 src/client/include/Client.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index ac60ed7..b787d15 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -403,10 +403,11 @@ public:
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
                 _subscriptions.insert({ getSubscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
-            } else if (cmd.command == mdp::Command::Unsubscribe) {
-                _requests.erase(0); // todo: lookup correct subscription
             }
         }
+        if (cmd.command == mdp::Command::Unsubscribe) {
+            _subscriptions.erase(getSubscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
+        }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
 
-- 
2.43.0


From 2b31f85805f95811e450246188f9ad217ad33ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:47 +0000
Subject: [PATCH 70/70] fix: requests and subscriptions of a client were
 changed by one thread while another one looked them up

---
 src/client/include/Client.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/client/include/Client.hpp b/src/client/include/Client.hpp
index b787d15..e93454b 100644
--- a/src/client/include/Client.hpp
+++ b/src/client/include/Client.hpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <ClientContext.hpp>
 #include <MdpMessage.hpp>
+#include <mutex>
 #include <opencmw.hpp>
 #include <Topic.hpp>
 #include <URI.hpp>
@@ -341,8 +342,9 @@ class MDClientCtx : public ClientBase {
     zmq::Socket                                                    _control_socket_recv;
     std::jthread                                                   _poller;
     std::vector<zmq_pollitem_t>                                    _pollitems{};
+    std::mutex                                                     _callbackMutex; // requests are made by one thread and answered by another
     std::unordered_map<std::size_t, Request>                       _requests;
-    std::unordered_map<std::string, Subscription>                  _subscriptions; // by broker and topic
+    std::unordered_map<std::string, std::shared_ptr<Subscription>> _subscriptions; // by broker and topic
     timeUnit                                                       _timeout;
     std::string                                                    _clientId;
     std::size_t                                                    _request_id = 1; // N.B. 0 marks messages that do not belong to a request
@@ -399,19 +401,34 @@ public:
         if (cmd.callback) {
             if (cmd.command == mdp::Command::Get || cmd.command == mdp::Command::Set) {
                 req_id = _request_id++;
+                std::scoped_lock lock(_callbackMutex);
                 _requests.insert({ req_id, Request{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
             } else if (cmd.command == mdp::Command::Subscribe) {
                 req_id = _request_id++;
-                _subscriptions.insert({ getSubscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), Subscription{ .uri = cmd.topic, .callback = std::move(cmd.callback), .timestamp_received = cmd.arrivalTime } });
+                std::scoped_lock lock(_callbackMutex);
+                _subscriptions.insert({ getSubscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()), std::make_shared<Subscription>(cmd.topic, std::move(cmd.callback), cmd.arrivalTime) });
             }
         }
         if (cmd.command == mdp::Command::Unsubscribe) {
+            std::scoped_lock lock(_callbackMutex);
             _subscriptions.erase(getSubscriptionKey(getBaseUri(cmd.topic), mdp::Topic::fromMdpTopic(cmd.topic).toZmqTopic()));
         }
         sendCmd(cmd.topic, cmd.command, req_id, cmd.data);
     }
 
 private:
+    std::shared_ptr<Subscription> findSubscription(const std::string &key) {
+        std::scoped_lock lock(_callbackMutex);
+        const auto       it = _subscriptions.find(key);
+        return it == _subscriptions.end() ? nullptr : it->second;
+    }
+
+    std::optional<Request> takeRequest(std::size_t id) {
+        std::scoped_lock lock(_callbackMutex);
+        auto             node = _requests.extract(id);
+        return node.empty() ? std::nullopt : std::optional(std::move(node.mapped()));
+    }
+
     void sendCmd(const URI<STRICT> &uri, mdp::Command commandType, std::size_t req_id, IoBuffer data = {}) const {
         const bool        isSet = commandType == mdp::Command::Set;
         zmq::MessageFrame cmdType{ std::string{ static_cast<char>(commandType) } };
@@ -471,12 +488,11 @@ private:
             for (const auto &[uri, client] : _clients) {
                 mdp::Message receivedEvent;
                 while (client->receive(receivedEvent)) {
-                    if (const auto key = getSubscriptionKey(uri, receivedEvent.serviceName); _subscriptions.contains(key)) {
-                        _subscriptions.at(key).callback(receivedEvent); // callback
+                    if (const auto subscription = findSubscription(getSubscriptionKey(uri, receivedEvent.serviceName))) {
+                        subscription->callback(receivedEvent); // callback
                     }
-                    if (_requests.contains(receivedEvent.id)) {
-                        _requests.at(receivedEvent.id).callback(receivedEvent); // callback
-                        _requests.erase(receivedEvent.id);
+                    if (auto request = takeRequest(receivedEvent.id)) {
+                        request->callback(receivedEvent); // callback
                     }
                     // perform housekeeping duties if necessary
                     if (auto now = std::chrono::system_clock::now(); nextHousekeeping < now) {
-- 
2.43.0

