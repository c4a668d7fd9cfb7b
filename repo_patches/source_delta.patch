From b8db70144565ba8782762cfa5d54cb8fc6d89563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 01/98] fix: half-precision floats are converted by value, not
 by bits

---
 bomba_core.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..3440799 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -93,12 +93,28 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 struct Float16Placeholder {
 	uint16_t data;
 	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+		uint32_t asInt = 0;
+		memcpy(&asInt, &value, sizeof(asInt));
+		int exponent = int((asInt >> 23) & 0xff) - 112; // Exponent bias is 127 in float, 15 in its shorter version
+		uint32_t mantissa = asInt & 0x7fffff;
+		data = (asInt >> 16) & 0x8000;
+		if (exponent >= 31) // Too large, infinite or not a number
+			data |= 0x7c00 | ((exponent == 143 && mantissa) ? 0x0200 : 0);
+		else if (exponent > 0)
+			data |= (exponent << 10) | (mantissa >> 13);
+		else if (exponent > -10) // Subnormal
+			data |= (mantissa | 0x800000) >> (14 - exponent);
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		uint32_t exponent = (data >> 10) & 0x1f;
+		uint32_t mantissa = data & 0x03ff;
+		if (exponent == 0) // Zero or subnormal
+			return ((data & 0x8000) ? -1.0f : 1.0f) * mantissa / (1 << 24);
+		uint32_t asInt = (uint32_t(data & 0x8000) << 16) | ((exponent == 31 ? 0xff : exponent + 112) << 23) | (mantissa << 13);
+		float value = 0;
+		memcpy(&value, &asInt, sizeof(value));
+		return value;
 	}
 };
 
-- 
2.43.0


From c5490eb9bf5ce8470121502ce6b056988801b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 02/98] fix: all integer types have a numeric type, including
 char and long long

---
 bomba_core.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 3440799..28cae73 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -144,17 +144,16 @@ namespace SerialisationFlags {
 
 	template <typename T>
 	Flags typeToFlags(T) {
-		if constexpr(std::is_same_v<T, int8_t>) return INT_8;
-		else if constexpr(std::is_same_v<T, uint8_t>) return UINT_8;
-		else if constexpr(std::is_same_v<T, int16_t>) return INT_16;
-		else if constexpr(std::is_same_v<T, uint16_t>) return UINT_16;
-		else if constexpr(std::is_same_v<T, int32_t>) return INT_32;
-		else if constexpr(std::is_same_v<T, uint32_t>) return UINT_32;
-		else if constexpr(std::is_same_v<T, int64_t>) return INT_64;
-		else if constexpr(std::is_same_v<T, uint64_t>) return UINT_64;
-		else if constexpr(std::is_same_v<T, Float16Placeholder>) return FLOAT_16;
+		// Classified by size, because there are more integer types than sizes (char, long long...)
+		if constexpr(std::is_integral_v<T>) {
+			constexpr bool isSigned = std::is_signed_v<T>;
+			if constexpr(sizeof(T) == 1) return isSigned ? INT_8 : UINT_8;
+			else if constexpr(sizeof(T) == 2) return isSigned ? INT_16 : UINT_16;
+			else if constexpr(sizeof(T) == 4) return isSigned ? INT_32 : UINT_32;
+			else return isSigned ? INT_64 : UINT_64;
+		} else if constexpr(std::is_same_v<T, Float16Placeholder>) return FLOAT_16;
 		else if constexpr(std::is_same_v<T, float>) return FLOAT_32;
-		else if constexpr(std::is_same_v<T, double>) return FLOAT_64;
+		else return FLOAT_64;
 	}
 
 	template <typename Functor>
-- 
2.43.0


From f20953f4f1e8c0e59f4aca0a954e52d62954e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 03/98] fix: appending a character to a full buffer must not
 write behind it

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 28cae73..131154c 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -436,6 +436,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.size() == 0 && !bufferFull()) [[unlikely]]
+			return *this;
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From ab824e4b5d2c93055327c4e217d3c7305616c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 04/98] fix: clearing a buffer resets its size

---
 bomba_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 131154c..6a6a9b1 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -479,6 +479,10 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
+	void restartBuffer(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 	int remainingSpace() const {
 		return _buffer.size();
 	}
@@ -538,7 +542,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		restartBuffer({_basic.data(), _basic.size()});
 	}
 };
 
@@ -589,7 +593,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		restartBuffer({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From 6f5d80f2382ace3998b616b5fb828f02863d9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 05/98] fix: data appended after flushing a streaming buffer
 follow the flushed data

---
 bomba_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 6a6a9b1..eaf00af 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -514,6 +514,7 @@ struct NonOwningStreamingBuffer : StreamingBuffer<StaticSize> {
 		if (this->size() > this->_sizeAtLastFlush) {
 			writer({this->_basic.data(), size_t(this->size() - this->_sizeAtLastFlush)});
 			this->_sizeAtLastFlush = this->size();
+			this->moveBuffer({this->_basic.data(), StaticSize});
 		}
 	}
 	NonOwningStreamingBuffer(Callback<void(std::span<const char>)> writer) : writer(writer) {}
-- 
2.43.0


From 7d205a4665d5007b45d089aff45ef2dd313fa67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 06/98] fix: maps always have keys, even inside objects with a
 known layout

---
 bomba_core.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index eaf00af..5fc9ca3 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1114,7 +1114,12 @@ concept SerialisableMap = requires(M map, M secondMap, typename M::key_type key)
 template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
+	static SerialisationFlags::Flags withoutKnownLayout(SerialisationFlags::Flags flags) {
+		return SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN); // Keys of a map are never known
+	}
+
 	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
+		flags = withoutKnownLayout(flags);
 		out.startWritingObject(flags, value.size());
 		int index = 0;
 		for (auto& it : value) {
@@ -1126,6 +1131,7 @@ struct TypedSerialiser<Map> {
 	}
 
 	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
+		flags = withoutKnownLayout(flags);
 		if (value.empty()) {
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
-- 
2.43.0


From 966374bcf2445f56e0f0059b105613c7777a52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 07/98] fix: updating a non-empty map keeps the keys read from
 the input

---
 bomba_core.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 5fc9ca3..27f7cbd 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1142,12 +1142,13 @@ struct TypedSerialiser<Map> {
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
+				typename Map::key_type key(*elementName); // The name may not be valid after reading the value
+				auto found = value.find(key);
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
+					result[key] = std::move(found->second);
 				} else
-					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
+					TypedSerialiser<ValueType>::deserialiseMember(in, result[key], flags);
 				return true;
 			});
 			std::swap(result, value);
-- 
2.43.0


From 72fb1392419c74d3126fcb1e008922de1f612285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 08/98] fix: remote callables without a responder can be called
 locally

---
 bomba_core.hpp       | 12 ++++++++----
 bomba_rpc_object.hpp | 12 ++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 27f7cbd..205485a 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -771,13 +771,17 @@ protected:
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
 	}
-	IRpcResponder* getResponder() const {
+	IRpcResponder* findResponder() const { // Returns nullptr if it's not a client
 		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
-		if (!_responder) [[unlikely]]
-			logicError("Calling a remote procedure while not being a client");
+			const_cast<IRpcResponder*&>(_responder) = _parent->findResponder(); // Lazy loading
 		return _responder;
 	}
+	IRpcResponder* getResponder() const {
+		IRpcResponder* responder = findResponder();
+		if (!responder) [[unlikely]]
+			logicError("Calling a remote procedure while not being a client");
+		return responder;
+	}
 
 public:
 	IRemoteCallable(IRemoteCallable* parent = nullptr, IRpcResponder* responder = nullptr)
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..b0703a9 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -564,7 +564,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<Args>(args)...));
 			} else {
@@ -572,7 +572,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Returned operator()(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...));
 			} else {
@@ -581,7 +581,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -590,7 +590,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Future<Returned> async(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -608,7 +608,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder));
 			} else {
@@ -617,7 +617,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder);
 				return Future<Returned>(this, responder, token);
-- 
2.43.0


From 15f50fc39866f01c4f5e66aee3b42a94c953adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 09/98] fix: serialising into an existing string compiles

---
 bomba_core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 205485a..be46fdb 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -663,7 +663,6 @@ struct ISerialisable {
 	void serialise(FromType& output) {
 		typename F::Output format(output);
 		serialiseInternal(format);
-		return output;
 	}
 	
 	template <DataFormat F, typename FromType>
-- 
2.43.0


From 6697300fb333d52110430674883a12fd05ba9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 10/98] fix: excess elements of fixed size arrays are skipped

---
 bomba_core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index be46fdb..d7c79ab 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1039,8 +1039,11 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
-			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+		for (int i = 0; in.nextArrayElement(flags); i++) {
+			if (i < int(size))
+				TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+			else
+				in.skipObjectElement(flags);
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From d9d34291b573a319db7e0a22b499a468a3ec5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 11/98] fix: unknown named arguments are skipped together with
 their values

---
 bomba_rpc_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index b0703a9..65155b2 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -414,7 +414,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
-				return;
+				if (name.has_value())
+					in.skipObjectElement(flags);
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
 					TypedSerialiser<std::decay_t<decltype(std::get<ArgIndex>(args))>>::deserialiseMember(
-- 
2.43.0


From 411e9d1dc6272768e4c7dc13e988ff44306792c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 12/98] fix: a remote call without a result is an error, not an
 uninitialised value

---
 bomba_rpc_object.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 65155b2..7d373d6 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -487,14 +487,22 @@ struct RpcLambdaInformationHolder {
 
 		Returned readResponse(IRpcResponder* responder, RequestToken token) const override {
 			if constexpr(std::is_void_v<Returned>) {
+				bool received = false;
 				responder->getResponse(token, [&](IStructuredInput& in) {
 					in.readNull(Flags);
+					received = true;
 				});
+				if (!received) [[unlikely]]
+					remoteError("No response received");
 			} else {
-				Returned result;
+				Returned result = {};
+				bool received = false;
 				responder->getResponse(token, [&](IStructuredInput& in) {
 					TypedSerialiser<Returned>::deserialiseMember(in, result, Flags);
+					received = true;
 				});
+				if (!received) [[unlikely]]
+					remoteError("No result received");
 				return result;
 			}
 		}
-- 
2.43.0


From c4becb773d2b8792ee9dddf47c2d4940a7bfd440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 13/98] fix: futures can be moved, fetched again after failure
 and destroyed safely

---
 bomba_rpc_object.hpp | 75 ++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 7d373d6..91efd2e 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -251,9 +251,25 @@ struct IResponseReader {
 	class FutureBase {
 	protected:
 		const IResponseReader<Returned>* _reader = nullptr;
-		IRpcResponder* _responder = nullptr;
+		mutable IRpcResponder* _responder = nullptr; // Not null only as long as the response was not fetched
 		RequestToken _token = {};
 
+		Returned fetch() const {
+			if (!_responder) [[unlikely]]
+				logicError("The future has no result to get");
+			IRpcResponder* responder = _responder;
+			_responder = nullptr; // A response can't be obtained again, not even if it was an error
+			return _reader->readResponse(responder, _token);
+		}
+
+		void discard() noexcept { // Get the response to avoid keeping unread responses in the stream
+			if (_responder) {
+				try {
+					fetch();
+				} catch (...) {} // Nobody is interested in it
+			}
+		}
+
 		FutureBase(const FutureBase&) = delete;
 		void operator=(const FutureBase&) = delete;
 	public:
@@ -263,7 +279,12 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			std::swap(_reader, other._reader);
+			std::swap(_responder, other._responder);
+			std::swap(_token, other._token);
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
@@ -274,39 +295,36 @@ class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
 	using Base = Detail::FutureBase<Returned>;
 
-	void cleanup() {
-		if (Base::_responder && !_value) {
-			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
-		}
-	}
 public:
 	using Base::FutureBase;
 	Future(Returned&& value) : _value(value) {}
-	Future& operator=(Future&& other) {
-		cleanup();
-		std::swap(Base::_reader, other._reader);
-		std::swap(Base::_responder, other._responder);
-		std::swap(Base::_token, other._token);
+	Future(Future&& other) : Base(std::move(other)) {
 		std::swap(_value, other._value);
+	}
+	Future& operator=(Future&& other) {
+		if (this != &other) {
+			Base::discard();
+			_value = std::nullopt;
+			Base::operator=(std::move(other));
+			std::swap(_value, other._value);
+		}
 		return *this;
 	}
 
 	Returned get() const {
 		if (!_value)
-			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+			_value = Base::fetch();
 		return *_value;
 	}
 
 	bool is_ready() const {
 		if (_value)
 			return true;
-		return Base::_responder->hasResponse(Base::_token);
+		return Base::_responder && Base::_responder->hasResponse(Base::_token);
 	}
 
 	~Future() {
-		cleanup();
+		Base::discard();
 	}
 };
 
@@ -317,18 +335,35 @@ class Future<void> : Detail::FutureBase<void> {
 public:
 	using Base::FutureBase;
 	Future() = default;
+	static Future finished() {
+		Future made;
+		made._done = true;
+		return made;
+	}
+	Future(Future&& other) : Base(std::move(other)) {
+		std::swap(_done, other._done);
+	}
+	Future& operator=(Future&& other) {
+		if (this != &other) {
+			Base::_responder = nullptr;
+			_done = false;
+			Base::operator=(std::move(other));
+			std::swap(_done, other._done);
+		}
+		return *this;
+	}
 
 	void get() const {
 		if (_done)
 			return;
-		Base::_reader->readResponse(Base::_responder, Base::_token);
+		Base::fetch();
 		_done = true;
 	}
 
 	bool is_ready() const {
 		if (_done)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder && Base::_responder->hasResponse(Base::_token);
 	}
 };
 
@@ -522,7 +557,7 @@ struct RpcLambdaInformationHolder {
 		Future<Returned> immediateCallToFuture(AnyArgs&&... args) const {
 			if constexpr(std::is_void_v<Returned>) {
 				lambda(std::forward<AnyArgs>(args)...);
-				return {};
+				return Future<void>::finished();
 			} else {
 				return Future<Returned>(lambda(std::forward<AnyArgs>(args)...));
 			}
-- 
2.43.0


From 868ce9ea05e76836b5f69efae617f83344016448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 14/98] fix: a JSON integer can end the document

---
 bomba_json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..0f1a789 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -107,10 +107,10 @@ struct BasicJson {
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
+			char next = peekChar<false>(); // The number can be at the end of the input
+			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-' || next == '+') {
 				_position++;
-				next = peekChar();
+				next = peekChar<false>();
 			}
 			return result;
 		}
-- 
2.43.0


From 59ee6a8b277b4a3780ebf71a16e0a322c34aa494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 15/98] fix: long numbers are written to JSON entirely

---
 bomba_json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 0f1a789..61cf375 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -265,10 +265,10 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // The longest are 24 characters of -1.2345678901234567e-308
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			std::to_chars_result end = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			_contents += std::string_view(bytes.data(), end.ptr - bytes.data());
 		}
 		void newLine() {
 			if (_skipNewline) [[unlikely]] {
-- 
2.43.0


From 904740ea5c134aae1442718ca8b3761225fbbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 16/98] fix: control characters in strings are written as valid
 JSON

---
 bomba_json.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 61cf375..45a5532 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -292,9 +292,18 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]] {
 					_contents += '\\';
-				_contents += it;
+					_contents += it;
+				} else if (it == '\n') [[unlikely]]
+					_contents += "\\n";
+				else if (it >= 0 && it < 0x20) [[unlikely]] { // Other control characters
+					constexpr char digits[] = "0123456789abcdef";
+					_contents += "\\u00";
+					_contents += digits[it >> 4];
+					_contents += digits[it & 0xf];
+				} else
+					_contents += it;
 			}
 			_contents += '"';
 		}
-- 
2.43.0


From 1fcd43b88fbcc2af3fa19ea51f890cfcfa68bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 17/98] fix: all JSON escape sequences are understood

---
 bomba_json.hpp | 59 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 45a5532..5fbd783 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -66,6 +66,53 @@ struct BasicJson {
 			}
 		}
 		
+		uint32_t readHexadecimal() {
+			uint32_t result = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				if (digit >= '0' && digit <= '9')
+					result = (result << 4) + (digit - '0');
+				else if (digit >= 'a' && digit <= 'f')
+					result = (result << 4) + (digit - 'a' + 10);
+				else if (digit >= 'A' && digit <= 'F')
+					result = (result << 4) + (digit - 'A' + 10);
+				else {
+					fail("Invalid JSON unicode escape");
+					return 0;
+				}
+			}
+			return result;
+		}
+
+		void readUnicodeEscape() {
+			uint32_t letter = readHexadecimal();
+			if (letter >= 0xd800 && letter < 0xdc00 && peekChar() == '\\') { // First half of a surrogate pair
+				int position = _position;
+				getChar();
+				uint32_t second = (peekChar() == 'u') ? (getChar(), readHexadecimal()) : 0;
+				if (second >= 0xdc00 && second < 0xe000)
+					letter = 0x10000 + ((letter - 0xd800) << 10) + (second - 0xdc00);
+				else
+					_position = position; // An unpaired one, the other escape is separate
+			}
+			if (letter < 0x80)
+				_resultBuffer += char(letter);
+			else {
+				if (letter < 0x800)
+					_resultBuffer += char(0xc0 | (letter >> 6));
+				else {
+					if (letter < 0x10000)
+						_resultBuffer += char(0xe0 | (letter >> 12));
+					else {
+						_resultBuffer += char(0xf0 | (letter >> 18));
+						_resultBuffer += char(0x80 | ((letter >> 12) & 0x3f));
+					}
+					_resultBuffer += char(0x80 | ((letter >> 6) & 0x3f));
+				}
+				_resultBuffer += char(0x80 | (letter & 0x3f));
+			}
+		}
+
 	public:
 		Input(std::string_view contents) : _contents(contents) {}
 		
@@ -142,6 +189,18 @@ struct BasicJson {
 						_resultBuffer += '"';
 					else if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == '/')
+						_resultBuffer += '/';
+					else if (readingChar == 'u')
+						readUnicodeEscape();
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
-- 
2.43.0


From 8dc3dd7685d7fb9246c840b3191ca6f94bd6b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 18/98] fix: skipping JSON values respects escapes and the end
 of the enclosing object

---
 bomba_json.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 5fbd783..2e59422 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -281,9 +281,11 @@ struct BasicJson {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0) // Ends the object or array the skipped value is in
+						break;
 					depth--;
 					getChar();
-					if (depth <= 0)
+					if (depth == 0)
 						break;
 				} else if (depth == 0 && (readingChar == ' ' || readingChar == '\t'
 						|| readingChar == '\r' || readingChar == '\n' || readingChar == ',')) {
@@ -292,7 +294,13 @@ struct BasicJson {
 					getChar();
 					do {
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+						if (readingChar == '\\') {
+							getChar(); // Can't end the string
+							readingChar = '\\';
+						}
+					} while (readingChar != '"');
+					if (depth == 0)
+						break;
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From c416f00d973272ee68cddf7b091e71f9cc7216a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 19/98] fix: omitting the first member doesn't leave a stray
 comma in JSON

---
 bomba_json.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 2e59422..e13c557 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -329,6 +329,7 @@ struct BasicJson {
 		OutputStringType& _contents;
 		int _depth = 0;
 		bool _skipNewline = false;
+		bool _first = true; // No element was written yet into the object or array being written
 		
 		template <typename Num>
 		void writeValue(Num value) {
@@ -387,16 +388,19 @@ struct BasicJson {
 		void startWritingArray(Flags flags, int size) final override {
 			_contents += '[';
 			_depth++;
+			_first = true;
 			if (size == 0)
 				_skipNewline = true;
 		}
 		void introduceArrayElement(Flags flags, int index) final override {
-			if (index > 0)
+			if (!_first)
 				_contents += ',';
+			_first = false;
 			newLine();
 		}
 		void endWritingArray(Flags flags) final override {
 			_depth--;
+			_first = false;
 			newLine();
 			_contents += ']';
 		}
@@ -404,18 +408,21 @@ struct BasicJson {
 		void startWritingObject(Flags flags, int size) final override {
 			_contents += '{';
 			_depth++;
+			_first = true;
 			if (size == 0)
 				_skipNewline = true;
 		}
 		void introduceObjectMember(Flags flags, std::string_view name, int index) final override {
-			if (index > 0)
+			if (!_first)
 				_contents += ',';
+			_first = false;
 			newLine();
 			writeString(flags, name);
 			_contents += " : ";
 		}
 		void endWritingObject(Flags flags) final override {
 			_depth--;
+			_first = false;
 			newLine();
 			_contents += '}';
 		}
-- 
2.43.0


From dd38d766451b105b30a9ca1bce7ee4eb186e0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 20/98] fix: unknown or repeated members don't end reading an
 object early

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..f71e782 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -440,7 +440,7 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			return (name.has_value() || index < ObjectInfo<Child>::size - 1); // True if it may not be the last one
 #endif
 		});
 		return format.good;
-- 
2.43.0


From a458ea782fc8c1d9d0f604f0f009bfc0a1f09dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 21/98] fix: large unsigned integers are not negative in JSON

---
 bomba_json.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index e13c557..7a1d24e 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -150,6 +150,12 @@ struct BasicJson {
 			eatWhitespace();
 			int64_t result = 0;
 			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
+			if (got.ec == std::errc::result_out_of_range
+					&& (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE) == SerialisationFlags::UINT_64) [[unlikely]] {
+				uint64_t large = 0;
+				got = std::from_chars(&_contents[_position], &*_contents.end(), large);
+				result = int64_t(large);
+			}
 			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
@@ -351,8 +357,11 @@ struct BasicJson {
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
 		
-		void writeInt(Flags, int64_t value) final override {
-			writeValue(value);
+		void writeInt(Flags flags, int64_t value) final override {
+			if ((flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE) == SerialisationFlags::UINT_64)
+				writeValue(uint64_t(value));
+			else
+				writeValue(value);
 		}
 		void writeFloat(Flags flags, double value) final override {
 			writeValue(value);
-- 
2.43.0


From 06265bfd29aafa3bbd3a6e7b4f07d6b65d96b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 22/98] fix: the last element of arrays in the binary format is
 read

---
 bomba_binary_protocol.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..f51997e 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -67,6 +67,7 @@ struct BinaryFormat {
 		std::span<const char> _contents;
 		int _position = 0;
 		std::array<int, MaxDepth> _sizes;
+		std::array<int, MaxDepth> _starts; // Positions of first elements of arrays whose reading has not started yet
 		int _depth = -1;
 
 		template <typename T>
@@ -134,9 +135,12 @@ struct BinaryFormat {
 			if (_depth == MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_sizes[_depth] = readSize(flags);
+			_starts[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			if (_starts[_depth] != _position) // Otherwise it's called before reading the first element
+				_sizes[_depth]--;
+			_starts[_depth] = -1;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From 84774f09ee305dbfcf77e75d7a40dec80a11116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 23/98] fix: numeric type flags are applied once to sizes and
 never to booleans

---
 bomba_binary_protocol.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index f51997e..03a5d53 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -84,7 +84,7 @@ struct BinaryFormat {
 		}
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
+				return readInt(flags);
 			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
@@ -188,7 +188,7 @@ struct BinaryFormat {
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
+				return writeInt(flags, size);
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
@@ -205,7 +205,8 @@ struct BinaryFormat {
 			_contents += value;
 		}
 		void writeBool(Flags flags, bool value) final override {
-			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(flags | SerialisationFlags::INT_8), _contents);
+			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(
+					(flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE) | SerialisationFlags::INT_8), _contents);
 		}
 		void writeNull(Flags) final override {
 		}
-- 
2.43.0


From e25a4189be1fc2bd657ba598d1d4ffb0a5ace74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 24/98] fix: sizes that don't fit are refused by the binary
 format

---
 bomba_binary_protocol.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 03a5d53..6b4ad8c 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -11,6 +11,7 @@
 #include <cstring>
 #include <cmath>
 #include <bit>
+#include <limits>
 
 namespace Bomba {
 
@@ -83,9 +84,15 @@ struct BinaryFormat {
 			return value;
 		}
 		int64_t readSize(Flags flags) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				return readInt(flags);
-			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
+			if (!(flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE))
+				flags = SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType()));
+			int64_t size = readInt(flags);
+			if (size < 0 || size > std::numeric_limits<int>::max()) [[unlikely]] {
+				parseError("Invalid size");
+				good = false;
+				return 0;
+			}
+			return size;
 		}
 	public:
 		Input(std::string_view contents) : _contents(contents.data(), contents.size()) {}
@@ -187,9 +194,15 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				return writeInt(flags, size);
-			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
+			if (!(flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE))
+				flags = SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType()));
+			bool fits = SerialisationFlags::typeWithFlags(flags, [&] (auto typedValue) {
+				typedValue = size;
+				return int64_t(typedValue) == size;
+			});
+			if (!fits) [[unlikely]]
+				logicError("The size is too large for the type of size in the binary format");
+			writeInt(flags, size);
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From 195556ccaa8ef348b395229621664e52cd64de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 25/98] fix: binary protocol server reads only the message
 announced by its size

---
 bomba_binary_protocol.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 6b4ad8c..52face7 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -277,13 +277,18 @@ public:
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input header(std::string_view(input.data(), input.size()));
 
-			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
-			if (input.size() < inputSize)
+			int messageId = header.readInt(SerialisationFlags::UINT_32);
+			int64_t inputSize = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < header.position())
+				return {ServerReaction::DISCONNECT, 0};
+			if (std::ssize(input) < inputSize)
 				return {ServerReaction::READ_ON, 0};
 
+			// Only the message can be read, not anything that follows it
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), inputSize));
+			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
 			const IRemoteCallable* target = &parent.callable;
 			while (target->getChild(0)) {
 				int request = in.readInt(SerialisationFlags::UINT_8);
@@ -306,7 +311,7 @@ public:
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return {ServerReaction::OK, inputSize};
 		}
 	};
 
-- 
2.43.0


From cabf647df6a94989a46a4a8f6bd74e60cf080ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 26/98] fix: failed calls disconnect from the binary protocol
 server instead of escaping from it

---
 bomba_binary_protocol.hpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 52face7..4c4cd6e 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -289,24 +289,30 @@ public:
 			// Only the message can be read, not anything that follows it
 			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), inputSize));
 			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
-			const IRemoteCallable* target = &parent.callable;
-			while (target->getChild(0)) {
-				int request = in.readInt(SerialisationFlags::UINT_8);
-				target = target->getChild(request);
-				if (!target)
-					return {ServerReaction::DISCONNECT, 0};
-			}
+			try {
+				const IRemoteCallable* target = &parent.callable;
+				while (target->getChild(0)) {
+					int request = in.readInt(SerialisationFlags::UINT_8);
+					target = target->getChild(request);
+					if (!target)
+						return {ServerReaction::DISCONNECT, 0};
+				}
 
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
-			out.writeInt(SerialisationFlags::UINT_32, messageId);
-			auto sizePosition = outputBuffer.size();
-			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
+				typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
+				out.writeInt(SerialisationFlags::UINT_32, messageId);
+				auto sizePosition = outputBuffer.size();
+				out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
-			SizeType outputSize = outputBuffer.size();
-			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+				bool called = target->call(&in, out, [&] {}, [&] (std::string_view problem) {
+					out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
+				});
+				SizeType outputSize = outputBuffer.size();
+				if (!called || outputSize != outputBuffer.size())
+					return {ServerReaction::DISCONNECT, 0};
+				memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+			} catch (...) { // The format has no way to describe an error
+				return {ServerReaction::DISCONNECT, 0};
+			}
 
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
-- 
2.43.0


From 3b13f0acbabc17eb38bcf49634f22f203e170a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 27/98] fix: binary protocol client waits for entire responses
 and moves past unreadable ones

---
 bomba_binary_protocol.hpp | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 4c4cd6e..c30f2ac 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -12,6 +12,7 @@
 #include <cmath>
 #include <bit>
 #include <limits>
+#include <exception>
 
 namespace Bomba {
 
@@ -332,7 +333,7 @@ class BinaryProtocolClient : public IRpcResponder {
 	ITcpClient& _tcpClient;
 	uint32_t _sendOrder = 0;
 
-	auto getResponseReader(RequestToken token, Callback<void(IStructuredInput&)> operation) {
+	auto getResponseReader(RequestToken token, Callback<void(std::optional<std::span<char>> message, int headerSize)> operation) {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
 			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
@@ -341,13 +342,17 @@ class BinaryProtocolClient : public IRpcResponder {
 					return {ServerReaction::READ_ON, RequestToken(), 0};
 			}
 			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
-			if (data.size() < size)
+			int64_t size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (size < in.position()) [[unlikely]] {
+				operation(std::nullopt, 0);
+				return {ServerReaction::DISCONNECT, receivedToken, 0};
+			}
+			if (std::ssize(data) < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
 			if (!identified && receivedToken != token)
 				return {ServerReaction::WRONG_REPLY, receivedToken, size};
 
-			operation(in);
+			operation(data.first(size), in.position());
 			return {ServerReaction::OK, token, size};
 		};
 	}
@@ -380,6 +385,8 @@ public:
 		request(out, token);
 
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
+		if (int64_t(SizeType(outputBuffer.size())) != outputBuffer.size()) [[unlikely]]
+			logicError("The message is too long for the type of size in the binary format");
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
 		memcpy(&writing[sizePosition], &writtenSize, sizeof(writtenSize));
@@ -387,12 +394,33 @@ public:
 		return token;
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
-		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) { reader(input); }));
-		return true;
+		bool done = false;
+		bool good = false;
+		std::exception_ptr problem = nullptr; // The TCP client has to move past the response even if reading it fails
+		while (!done) { // It may arrive in parts
+			_tcpClient.getResponse(token, getResponseReader(token, [&] (std::optional<std::span<char>> message, int headerSize) {
+				done = true;
+				if (!message)
+					return;
+				good = true;
+				typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input
+						in(std::string_view(message->data(), message->size()));
+				in.restorePosition(SerialisationFlags::NONE, {headerSize});
+				try {
+					reader(in);
+				} catch (...) {
+					problem = std::current_exception();
+				}
+			}));
+		}
+		if (problem)
+			std::rethrow_exception(problem);
+		return good;
 	}
 	bool hasResponse(RequestToken token) override {
 		bool hasIt = false;
-		_tcpClient.tryToGetResponse(token, getResponseReader(token, [&] (IStructuredInput&) { hasIt = true; }));
+		_tcpClient.tryToGetResponse(token, getResponseReader(token,
+				[&] (std::optional<std::span<char>>, int) { hasIt = true; }));
 		return hasIt;
 	}
 };
-- 
2.43.0


From a356cd46cc6df6bfd2b7b3d432d93901b1dea2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 28/98] fix: an incomplete HTTP request line must not throw
 from the session

---
 bomba_http.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..1f47569 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -631,7 +631,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -643,8 +643,10 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine)) // It does not have three parts
+					return false;
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
-- 
2.43.0


From 20183b96ef24032f58c79fd8ff331b8f7a0e538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 29/98] fix: invalid or huge values of Content-Length are not
 taken as body sizes

---
 bomba_http.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1f47569..7df6997 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -117,7 +117,13 @@ struct HttpParseState {
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				int size = -1;
+				auto [sizeEnd, error] = std::from_chars(attributeValue.data(), attributeValue.data() + attributeValue.size(), size);
+				while (sizeEnd != attributeValue.data() + attributeValue.size() && (*sizeEnd == ' ' || *sizeEnd == '\t'))
+					sizeEnd++;
+				if (error != std::errc() || sizeEnd != attributeValue.data() + attributeValue.size() || size < 0)
+					return {ServerReaction::DISCONNECT, 0};
+				bodySize = size;
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
@@ -687,12 +693,12 @@ public:
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
 			} else _state.bodySize = 0;
-			int consuming = _state.parsePosition + _state.bodySize;
+			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
 				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
+					if (std::ssize(input) < consuming) {
 						return {ServerReaction::READ_ON, input.size()};
 					}
 				}
@@ -916,7 +922,7 @@ public:
 					}
 				}
 
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
+				if (state.bodySize > 0 && std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
 					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
 				}
 			
-- 
2.43.0


From 462367443c9f9f5ff3edf02498ee45320238e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 30/98] fix: bodies of all HTTP requests are consumed, not
 parsed as other requests

---
 bomba_http.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 7df6997..a38521c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -692,17 +692,16 @@ public:
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
+			} else if (_state.bodySize == -1)
+				_state.bodySize = 0;
 			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, input.size()};
+			}
+
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (std::ssize(input) < consuming) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
-- 
2.43.0


From 09d01f30aa80bcc1bfbbcf44152c37e679186991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 31/98] fix: error 501 response has correct line ending

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index a38521c..79d856e 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -788,7 +788,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From 818acf44d87904a83543898ab6f655eca4a175c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 32/98] fix: headers of an HTTP request don't affect the
 following requests

---
 bomba_http.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 79d856e..70ec1f1 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -631,8 +631,8 @@ public:
 				POST_REQUEST,
 				WEIRD_REQUEST
 			} requestType = UNINVESTIGATED_REQUEST;
-			std::pair<int, int> path;
-			std::pair<int, int> contentType;
+			std::pair<int, int> path = {0, 0};
+			std::pair<int, int> contentType = {0, 0};
 			ServerReaction ending = ServerReaction::OK;
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
@@ -675,8 +675,7 @@ public:
 		std::pair<ServerReaction, int64_t> respond(
 					std::span<char> input, Callback<void(std::span<const char>)> writer) override {
 			auto restore = [this] () {
-				_state.reset();
-				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state = ParseState(); // Nothing from this request can affect the following one
 			};
 
 			// Locate the header's span
@@ -793,8 +792,9 @@ public:
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 			}
+			ServerReaction ending = _state.ending;
 			restore();
-			return {_state.ending, consuming};
+			return {ending, consuming};
 		}
 		
 	
-- 
2.43.0


From 2af13402e855bf063f776d3a0782371af7e9ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 33/98] fix: no error response is sent after a response that
 was already sent

---
 bomba_http.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 70ec1f1..caf3bf0 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -708,6 +708,7 @@ public:
 				struct WriteStarter : IWriteStarter {
 					Callback<void(std::span<const char>)> writer;
 					bool startedResponse = false;
+					bool sent = false; // Some of it could be sent already, no other response is possible
 					int headerSize = 0;
 
 
@@ -738,10 +739,12 @@ public:
 						std::to_chars(const_cast<char*>(&view[sizeof(correctIntro)]),
 								const_cast<char*>(&view[sizeof(correctIntro) + sizeof(unsetSize)]),
 								view.size() - headerSize);
+						sent = true;
 						writer(view);
 					}
 					void writeKnownSize(std::string_view resourceType, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
 						NonOwningStreamingBuffer<1024> streamingBuffer{writer};
+						sent = true;
 						startCorrectResponse(streamingBuffer, resourceType, size);
 						filler(streamingBuffer);
 					}
@@ -752,7 +755,7 @@ public:
 				try {
 					if (_state.requestType == ParseState::GET_REQUEST) {
 						success = _responders.getResponder.get(path, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.sent) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 404 Not Found\r\n"
 									"Content-Length: 73\r\n\r\n"
@@ -763,7 +766,7 @@ public:
 						std::span<char> body = {input.begin() + _state.parsePosition, input.begin() + _state.parsePosition + _state.bodySize};
 						std::string_view contentType = {input.data() + _state.contentType.first, size_t(_state.contentType.second)};
 						success = _responders.postResponder.post(path, contentType, body, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.sent) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 400 Bad Request\r\n"
 									"Content-Length: 66\r\n\r\n"
@@ -776,7 +779,11 @@ public:
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
 							"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
-					writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+					if (!correctResponseWriter.sent)
+						writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+				}
+				if (!success && correctResponseWriter.sent) {
+					_state.ending = ServerReaction::DISCONNECT; // It can't be undone or finished
 				}
 				if (success) {
 					if (correctResponseWriter.startedResponse) {
-- 
2.43.0


From e82c57f7f6812e88645139978a5a7ab4a686db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 34/98] fix: a JSON-RPC request that is not an object or array
 is refused before responding

---
 bomba_json_rpc.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..407992c 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -172,6 +172,11 @@ public:
 			return false;
 		}
 
+		auto requestType = typename Json::Input(std::string_view(request.data(), request.size())).identifyType(Json::Output::Flags::NONE);
+		if (requestType != IStructuredInput::TYPE_ARRAY && requestType != IStructuredInput::TYPE_OBJECT) [[unlikely]] {
+			return false; // The request was total nonsense
+		}
+
 		bool result = false;
 		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			constexpr auto noFlags = Json::Output::Flags::NONE;
@@ -204,7 +209,7 @@ public:
 				result = true;
 			}
 		});
-		return result; // The request was total nonsense
+		return result;
 	}
 };
 
-- 
2.43.0


From c335e4f31f73c770ee8046835584685996fe7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 35/98] fix: HTTP client handles every response by itself, also
 malformed, unfetched or without a body

---
 bomba_http.hpp | 91 ++++++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index caf3bf0..cdb4487 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -846,26 +846,60 @@ class HttpClient : public IRpcResponder {
 
 	bool hasResponse(RequestToken token) override {
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
+		// The client keeps the response
+		_client.tryToGetResponse(token, responseFinder(token, [&] (std::span<char>, bool) {
 			has = true;
-			return true;
-		});
+		}));
 		return has;
 	}
 
+	// Makes a function that finds where the response ends and whose response it is
+	auto responseFinder(RequestToken token, Callback<void(std::span<char> message, bool success)> operation) {
+		return [this, token, operation] (std::span<char> input, bool identified)
+						-> std::tuple<ServerReaction, RequestToken, int64_t> {
+			ParseState state;
+			auto [reaction, position] = state.parse(input);
+			if (reaction == ServerReaction::DISCONNECT) {
+				operation({}, false); // It will not be possible to find any other response
+				return {ServerReaction::DISCONNECT, RequestToken{}, 0};
+			}
+			if (reaction != ServerReaction::OK) {
+				return {reaction, RequestToken{}, position};
+			}
+
+			int bodySize = std::max(0, state.bodySize);
+			int64_t consuming = int64_t(state.parsePosition) + bodySize;
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, RequestToken{}, input.size()};
+			}
+
+			if (!identified) {
+				_lastTokenRead.id++;
+				if (token != _lastTokenRead) {
+					return {ServerReaction::WRONG_REPLY, _lastTokenRead, consuming};
+				}
+			}
+
+			operation(input.subspan(state.parsePosition, bodySize), (state.resultCode >= 200 && state.resultCode < 300));
+			return {ServerReaction::OK, token, consuming};
+		};
+	}
+
 	struct ParseState : Detail::HttpParseState {
 		int resultCode = 0;
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+			int separator2 = separator1;
+			while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
-			return true;
+			if (separator1 >= std::ssize(firstLine))
+				return false; // There is no status code
+			auto [end, error] = std::from_chars(firstLine.data() + separator1, firstLine.data() + separator2, resultCode);
+			return error == std::errc() && end == firstLine.data() + separator2;
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
 	};
@@ -913,40 +947,19 @@ public:
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
+		std::exception_ptr problem = nullptr; // The TCP client has to move past the response even if reading it fails
 		while (!done) {
-			ParseState state;
-			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
-						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-				// Locate the header's span
-				if (state.bodySize == -1) {
-					auto [reaction, position] = state.parse(input);
-					if (reaction == ServerReaction::DISCONNECT) {
-						done = true;
-					}
-					if (reaction != ServerReaction::OK) {
-						return {reaction, RequestToken{}, position};
-					}
-				}
-
-				if (state.bodySize > 0 && std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
-					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
-				}
-			
-				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int offset = state.parsePosition + std::max(0, state.bodySize);
-					state = ParseState{};
-					_lastTokenRead.id++;
-					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
-				}					
+			_client.getResponse(token, responseFinder(token, [&] (std::span<char> message, bool success) {
 				done = true;
-
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
-						(state.resultCode >= 200 && state.resultCode < 300));
-				if (!identified)
-					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
-			});
+				try {
+					reader(message, success);
+				} catch (...) {
+					problem = std::current_exception();
+				}
+			}));
 		}
+		if (problem)
+			std::rethrow_exception(problem);
 	}
 };
 
-- 
2.43.0


From e25e04df16f84d6c9a60a3dc1ee823e8c7aa43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 36/98] fix: HTTP client calls the method it was asked to call,
 not the root object

---
 bomba_http.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index cdb4487..755225f 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -825,11 +825,14 @@ class HttpClient : public IRpcResponder {
 			Callback<void(IStructuredOutput&, RequestToken)> request) override {
 		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
+		LocalStringType resource;
+		resource += '/';
+		resource += std::string_view(methodName);
 		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
-		});
+		}, resource);
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		getResponse(token, [&] (std::span<char> data, bool success) {
@@ -908,12 +911,14 @@ public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
 	RequestToken post(std::string_view contentType,
-			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
+			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view resource = "/") {
 		_lastTokenWritten.id++;
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
-		written += correctIntro;
+		written += "POST ";
+		written += resource;
+		written += " HTTP/1.1\r\nContent-Length: ";
+		int sizePosition = written.size();
 		written += unsetSize;
 		written += "\r\nHost: ";
 		written += _virtualHost;
@@ -923,8 +928,8 @@ public:
 		int sizeBefore = written.size();
 		request(written, RequestToken{_lastTokenWritten});
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
+				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
 		return _lastTokenWritten;
-- 
2.43.0


From 5efd1bdfa4cd3c343fe69c0b49d8fdd93c796d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 37/98] fix: requests that could not be sent don't shift the
 order of responses

---
 bomba_http.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 755225f..929d956 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -912,7 +912,7 @@ public:
 
 	RequestToken post(std::string_view contentType,
 			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view resource = "/") {
-		_lastTokenWritten.id++;
+		RequestToken token = {_lastTokenWritten.id + 1};
 		ExpandingBufferType written;
 		constexpr char unsetSize[] = "0         ";
 		written += "POST ";
@@ -926,13 +926,14 @@ public:
 		written += contentType;
 		written += "\r\n\r\n";
 		int sizeBefore = written.size();
-		request(written, RequestToken{_lastTokenWritten});
+		request(written, token);
 		std::string_view reqView = written;
 		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
 				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
-		return _lastTokenWritten;
+		_lastTokenWritten = token; // Only requests that were sent will have responses
+		return token;
 	}
 
 	RequestToken get(std::string_view resource = "/") {
@@ -945,8 +946,8 @@ public:
 		written += mid;
 		written += _virtualHost;
 		written += suffix;
-		_lastTokenWritten.id++;
 		_client.writeRequest(written);
+		_lastTokenWritten.id++; // Only requests that were sent will have responses
 		return _lastTokenWritten;
 	}
 
-- 
2.43.0


From 61227bb747a0537bef1f250fa8fe8ae32061bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 38/98] fix: network client keeps polled responses and reports
 lost connections instead of waiting forever

---
 bomba_sync_client.hpp | 101 ++++++++++++++++++++++++++++++------------
 1 file changed, 72 insertions(+), 29 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..eee34d9 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -22,9 +22,28 @@ class SyncNetworkClient : public ITcpClient {
 	Net::ip::basic_endpoint<Net::ip::tcp> _server;
 	std::unordered_map<RequestToken, std::vector<char>> _responses;
 	std::vector<char> _leftovers;
-	
+	bool _broken = false; // Responses can't be matched to requests after losing the connection
+
 	void connect() {
-		_socket.connect(_server);
+		if (_broken)
+			remoteError("Connection was lost");
+		try {
+			_socket.connect(_server);
+		} catch (...) {
+			close();
+			throw;
+		}
+	}
+
+	void close() {
+		std::error_code error;
+		_socket.close(error);
+	}
+
+	void disconnect() {
+		_broken = true;
+		_leftovers.clear();
+		close();
 	}
 
 	template <bool doWait, typename Reader>
@@ -32,39 +51,53 @@ class SyncNetworkClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
-				return;
+			std::vector<char> accessed;
+			if constexpr(doWait) {
+				accessed = std::move(found->second);
+				_responses.erase(found); // It will not be obtained again
+			}
+			auto [reaction, token, position] = reader(doWait ? accessed : found->second, true);
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			return;
 		}
 
+		if (!_socket.is_open())
+			connect();
+
 		// Wait for a reply if none was received before
-		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
-			std::error_code error;
-			if constexpr(!doWait) {
-				if (_socket.available() == 0)
-					break;
-			}
-			auto received = _socket.read_some(Net::buffer(responseBuffer), error);
-			if (error) {
-				remoteError(error.message().c_str());
-				break;
-			}
-			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
+		while (true) {
 			while (!_leftovers.empty()) {
 				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::DISCONNECT) {
+					disconnect();
 					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
+				}
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) {
+					// It was not accessed yet
 					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
+				}
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
+			std::array<char, 2048> responseBuffer;
+			std::error_code error;
+			if constexpr(!doWait) {
+				if (_socket.available(error) == 0 && !error)
+					return;
 			}
+			size_t received = error ? 0 : _socket.read_some(Net::buffer(responseBuffer), error);
+			if (error == std::errc::interrupted)
+				continue;
+			if (error || received == 0) {
+				disconnect();
+				remoteError(error ? error.message() : "Connection was closed");
+			}
+			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
 
@@ -76,16 +109,26 @@ public:
 	void writeRequest(std::span<char> written) override {
 		if (!_socket.is_open())
 			connect();
+#ifdef MSG_NOSIGNAL
+		constexpr auto flags = Net::socket_base::message_flags(MSG_NOSIGNAL);
+#else
+		constexpr auto flags = Net::socket_base::message_flags();
+#endif
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(Net::buffer(NetStringView(written.data(), written.size())));
-			written = std::span<char>(written.begin() + inSocket, written.end());
+			std::error_code error;
+			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())), flags, error);
+			if (error == std::errc::interrupted)
+				continue;
+			if (error) {
+				disconnect(); // Part of the request could have been sent
+				remoteError(error.message());
+			}
+			written = written.subspan(inSocket);
 		}
 	}
 	
 	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>
 					(std::span<char> input, bool identified)> reader) override {
-		if (!_socket.is_open())
-			connect();
 		searchRequests<true>(token, reader);
 	}
 
-- 
2.43.0


From 7175a8d742aa015a5c99299ba162b1ccfaffeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 39/98] fix: order of members in JSON-RPC requests doesn't
 matter and malformed requests don't run methods

---
 bomba_json_rpc.hpp | 197 ++++++++++++++++++++++++---------------------
 1 file changed, 107 insertions(+), 90 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 407992c..3ea2699 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -33,33 +33,42 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 	IRemoteCallable& _callable;
 	using Json = BasicJson<LocalStringType, GeneralisedBuffer>;
 
+	// Returns if it's possible to read on
 	bool respondInternal(IStructuredInput& input, IStructuredOutput& output, Callback<> onResponseStarted) {
 		constexpr auto noFlags = Json::Output::Flags::NONE;
 		bool failed = false;
 		bool responding = false;
+		bool readable = true;
+		IStructuredInput::Location idPosition;
+		IStructuredInput::Location methodPosition;
 		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
+		IStructuredInput::Location endPosition;
 
-		auto writeId = [&] {
+		auto startResponse = [&] {
 			responding = true;
 			onResponseStarted();
 			output.startWritingObject(noFlags, 3);
 			output.introduceObjectMember(noFlags, "jsonrpc", 0);
 			output.writeString(noFlags, "2.0");
 			output.introduceObjectMember(noFlags, "id", 1);
-
+		};
+		auto writeId = [&] {
+			input.restorePosition(noFlags, idPosition);
 			auto identified = input.identifyType(noFlags);
-			if (identified == IStructuredInput::TYPE_INTEGER)
-				output.writeInt(noFlags, input.readInt(noFlags));
-			else if (identified == IStructuredInput::TYPE_STRING)
-				output.writeString(noFlags, input.readString(noFlags));
-			else if (identified == IStructuredInput::TYPE_FLOAT)
-				output.writeFloat(noFlags, input.readFloat(noFlags));
-			else if (identified == IStructuredInput::TYPE_NULL) {
-				input.readNull(noFlags);
-				output.writeNull(noFlags);
+			if (identified == IStructuredInput::TYPE_INTEGER) {
+				int64_t id = input.readInt(noFlags);
+				startResponse();
+				output.writeInt(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_STRING) {
+				std::string_view id = input.readString(noFlags);
+				startResponse();
+				output.writeString(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_FLOAT) {
+				double id = input.readFloat(noFlags);
+				startResponse();
+				output.writeFloat(noFlags, id);
 			} else {
-				input.skipObjectElement(noFlags);
+				startResponse();
 				output.writeNull(noFlags);
 			}
 		};
@@ -73,80 +82,83 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			errorWritten.writeInt("code",  int(errorType));
 			errorWritten.writeString("message", message);
 		};
+		auto introduceUnidentifiedError = [&] (std::string_view message, JsonRpcError errorType) {
+			startResponse();
+			output.writeNull(noFlags);
+			introduceError(message, errorType);
+		};
+		auto introduceResult = [&] () {
+			if (responding)
+				output.introduceObjectMember(noFlags, "result", 2);
+		};
 
+		// The order of members is arbitrary, so nothing can be done before the entire request is known to be readable
+		bool knownVersion = true;
+		bool knownMembers = true;
 		try {
-			const IRemoteCallable* method = nullptr;
-			bool called = false;
-			auto call = [&] () {
-				auto introduceResult = [&] () {
-					if (responding)
-						output.introduceObjectMember(noFlags, "result", 2);
-				};
-				auto formerPosition = input.storePosition(noFlags);
-				if (method) [[likely]] {
-					called = true; // If it throws, it's still considered called
-					if (paramsPosition) {
-						input.restorePosition(noFlags, paramsPosition);
-					}
-					if (responding)
-						method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
-					else {
-						NullStructredOutput nullOutput;
-						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
+			if (input.identifyType(noFlags) == IStructuredInput::TYPE_OBJECT) [[likely]] {
+				input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
+					if (*nextName == "jsonrpc") {
+						if (input.readString(noFlags) != "2.0") [[unlikely]]
+							knownVersion = false;
+						return true;
+					} else if (*nextName == "id") {
+						idPosition = input.storePosition(noFlags);
+					} else if (*nextName == "method") {
+						methodPosition = input.storePosition(noFlags);
+					} else if (*nextName == "params") {
+						paramsPosition = input.storePosition(noFlags);
+					} else [[unlikely]] {
+						knownMembers = false;
 					}
-				}
-				return formerPosition;
-			};
+					input.skipObjectElement(noFlags);
+					return true;
+				});
+				endPosition = input.storePosition(noFlags);
+				if (idPosition)
+					writeId();
+			} else {
+				input.skipObjectElement(noFlags);
+				endPosition = input.storePosition(noFlags);
+				introduceUnidentifiedError("Request is not an object", JsonRpcError::INVALID_REQUEST);
+			}
+		} catch (std::exception& e) {
+			if (endPosition) { // Only the identifier can't be used
+				introduceUnidentifiedError(e.what(), JsonRpcError::INVALID_REQUEST);
+			} else {
+				readable = false;
+				introduceUnidentifiedError(e.what(), JsonRpcError::PARSE_ERROR);
+			}
+		}
 
-			// The logic that must be upheld:
-			// * every loop advances by 1 entry (if position is modified, it must be restored)
-			// * finding id starts the response, finding params stores their position and finding method causes its lookup
-			// * it's called immediately when method, params and id are all known
-			// * if something is missing, it's called after the loop
-			input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
-				if (*nextName == "jsonrpc") {
-					if (input.readString(noFlags) != "2.0") [[unlikely]] {
-						introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
-						return false;
-					}
-				} else if (*nextName == "id") {
-					if (!called) {
-						writeId();
-						if (method && paramsPosition) {
-							input.restorePosition(noFlags, call());
-						}
-					} else
-						input.skipObjectElement(noFlags);
-				} else if (*nextName == "method") {
-					if (!method) {
-						auto path = input.readString(noFlags);
-						method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
-						if (!method) [[unlikely]] {
-							introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
-						}
-						if (responding && paramsPosition) {
-							input.restorePosition(noFlags, call());
-						}
-					} else
-						input.skipObjectElement(noFlags);
-				} else if (*nextName == "params") {
-					paramsPosition = input.storePosition(noFlags);
-					if (method && responding) {
-						call();
-					} else {
-						input.skipObjectElement(noFlags);
-					}
-				} else [[unlikely]] {
-					introduceError("Unexpected member in request", JsonRpcError::INVALID_REQUEST);
-					return false;
-				}
-				return !failed;
-			});
-			if (!failed && !called) {
+		try {
+			const IRemoteCallable* method = nullptr;
+			if (failed) {
+				// Already reported
+			} else if (!knownVersion) [[unlikely]] {
+				introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
+			} else if (!knownMembers) [[unlikely]] {
+				introduceError("Unexpected member in request", JsonRpcError::INVALID_REQUEST);
+			} else if (!methodPosition) [[unlikely]] {
+				introduceError("Method name not found in request", JsonRpcError::METHOD_NOT_FOUND);
+			} else {
+				input.restorePosition(noFlags, methodPosition);
+				auto path = input.readString(noFlags);
+				method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
 				if (!method) [[unlikely]] {
-					introduceError("Method name not found in request", JsonRpcError::METHOD_NOT_FOUND);
+					introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
+				}
+			}
+
+			if (method) [[likely]] {
+				if (paramsPosition)
+					input.restorePosition(noFlags, paramsPosition);
+				if (responding) {
+					method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
+				} else {
+					NullStructredOutput nullOutput;
+					method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 				}
-				input.restorePosition(noFlags, call());
 			}
 		} catch (ParseError& e) {
 			introduceError(e.what(), JsonRpcError::PARSE_ERROR);
@@ -160,7 +172,9 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			output.endWritingObject(noFlags);
 		}
 
-		return !failed;
+		if (readable)
+			input.restorePosition(noFlags, endPosition);
+		return readable;
 	}
 
 public:
@@ -190,18 +204,21 @@ public:
 				input.startReadingArray(noFlags);
 				output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
 				int resultArrayIndex = 0;
-				while (input.nextArrayElement(noFlags)) {
-					auto previousPosition = input.storePosition(noFlags);
-					bool success = respondInternal(input, output, [&] () mutable {
+				auto hasNext = [&] {
+					try {
+						return input.nextArrayElement(noFlags);
+					} catch (ParseError&) {
+						return true; // Needs an error response
+					}
+				};
+				while (hasNext()) {
+					bool readable = respondInternal(input, output, [&] () mutable {
 						output.introduceArrayElement(noFlags, resultArrayIndex);
 						resultArrayIndex++;
 					});
-					if (!success) {
-						input.restorePosition(noFlags, previousPosition);
-						input.skipObjectElement(noFlags);
-					}
+					if (!readable)
+						break; // There's no telling where the next one starts
 				}
-				input.endReadingArray(noFlags);
 				output.endWritingArray(noFlags);
 				result = true; // Http should not report an error here
 			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
-- 
2.43.0


From 82762ae5411fdbb15362bed7fa22ecda40cace41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 40/98] fix: responses are sent entirely and failing to send
 one ends only that session

---
 bomba_tcp_server.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..56bf86a 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -191,9 +191,25 @@ class TcpServer {
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
-			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
+#ifdef MSG_NOSIGNAL
+			constexpr auto flags = Net::socket_base::message_flags(MSG_NOSIGNAL);
+#else
+			constexpr auto flags = Net::socket_base::message_flags();
+#endif
+			bool sendingFailed = false;
+			auto result = _responder.respond(data, [this, &sendingFailed] (std::span<const char> output) {
+				while (!sendingFailed && !output.empty()) {
+					std::error_code error;
+					size_t sent = _socket.send(Net::buffer(output.data(), output.size()), flags, error);
+					if (!error)
+						output = output.subspan(sent);
+					else if (error != std::errc::interrupted)
+						sendingFailed = true;
+				}
 			});
+			if (sendingFailed)
+				return {ServerReaction::DISCONNECT, 0};
+			return result;
 		}
 
 		void notifyMessageWasParsed() override {
-- 
2.43.0


From 3d4f60b3a7e829d5c4fbc5431df763918dd2c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 41/98] fix: an exception from a responder ends only that
 session

---
 bomba_tcp_server.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 56bf86a..6ae8acc 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -197,7 +197,7 @@ class TcpServer {
 			constexpr auto flags = Net::socket_base::message_flags();
 #endif
 			bool sendingFailed = false;
-			auto result = _responder.respond(data, [this, &sendingFailed] (std::span<const char> output) {
+			auto writer = [this, &sendingFailed] (std::span<const char> output) {
 				while (!sendingFailed && !output.empty()) {
 					std::error_code error;
 					size_t sent = _socket.send(Net::buffer(output.data(), output.size()), flags, error);
@@ -206,10 +206,13 @@ class TcpServer {
 					else if (error != std::errc::interrupted)
 						sendingFailed = true;
 				}
-			});
-			if (sendingFailed)
-				return {ServerReaction::DISCONNECT, 0};
-			return result;
+			};
+			try {
+				auto result = _responder.respond(data, writer);
+				if (!sendingFailed)
+					return result;
+			} catch (...) {} // Other sessions must not be affected
+			return {ServerReaction::DISCONNECT, 0};
 		}
 
 		void notifyMessageWasParsed() override {
-- 
2.43.0


From 725ebe2799578e6c1757007497a97544a7391f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 42/98] fix: a failed accept doesn't end accepting of clients

---
 bomba_tcp_server.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 6ae8acc..70ce4e5 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -228,11 +228,10 @@ class TcpServer {
 
 	void startSession() {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
-			if (error) {
-//				std::cout << "Error: " << error.message() << std::endl;
+			if (error == std::errc::operation_canceled) {
 				return;
 			}
-			{
+			if (!error) { // A client that could not be accepted must not prevent others from connecting
 				std::lock_guard lock(_sessionsLock);
 				int index = _sessions.size();
 				_sessions.emplace_back(std::make_unique<Session>(std::move(socket), _responder, *this, index));
-- 
2.43.0


From cf1e83105e80ec12c475fc626629dd11e606fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 43/98] fix: connection is not reused after a response of other
 size than announced

---
 bomba_http.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 929d956..feb2c8c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -747,6 +747,8 @@ public:
 						sent = true;
 						startCorrectResponse(streamingBuffer, resourceType, size);
 						filler(streamingBuffer);
+						if (streamingBuffer.size() - headerSize != size) [[unlikely]]
+							logicError("Size of the response does not match the announced size");
 					}
 				};
 
-- 
2.43.0


From e07bd99fcc9e5c7df449e038254daeaecd5b39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 44/98] fix: files without extensions can be served

---
 bomba_download_server.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..043c12a 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -48,6 +48,8 @@ protected:
 		auto foundExtension = _extensions.find(std::string(extension));
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.size() <= 1) {
+			return "application/octet-stream";
 		} else {
 			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
 		}
@@ -88,7 +90,7 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
+			std::string extension = std::filesystem::path(path).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From 89216fdf827eff79ff8718a4a7693245e7f4c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 45/98] fix: file server does not leave its folder through
 absolute paths

---
 bomba_download_server.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 043c12a..6824713 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -108,10 +108,11 @@ public:
 		}
 
 		std::string editedPath = std::string(path);
-		if (editedPath.empty() || editedPath.back() == '/') {
+		if (editedPath.empty() || editedPath == "/") {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			if (editedPath[0] != '/' || editedPath.find("//") != std::string_view::npos || editedPath.find('\0') != std::string_view::npos
+					|| editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
@@ -120,7 +121,8 @@ public:
 		std::filesystem::path fullPath = _root;
 		fullPath.append(editedPath.substr(1));
 
-		if (!std::filesystem::exists(fullPath) || !std::filesystem::is_regular_file(fullPath)) {
+		std::error_code error;
+		if (!std::filesystem::is_regular_file(fullPath, error)) {
 			std::cout << "Can't send " << fullPath << std::endl;
 			return false;
 		}
-- 
2.43.0


From 59355743f018b1af2cbbc99ef19aa082c261b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 46/98] fix: unreadable files are not served as garbage

---
 bomba_download_server.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 6824713..225b33e 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -128,13 +128,19 @@ public:
 		}
 		uintmax_t size = std::filesystem::file_size(fullPath);
 
-		std::ifstream file(fullPath);
+		std::ifstream file(fullPath, std::ios::binary);
+		if (!file) [[unlikely]] {
+			std::cout << "Can't read " << fullPath << std::endl;
+			return false;
+		}
 		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
 				int amount = std::min<int>(buffer.size(), size - position);
 				file.read(buffer.data(), amount);
+				if (file.gcount() != amount) [[unlikely]]
+					logicError("File could not be read entirely");
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
 			}
-- 
2.43.0


From 7600f5ac708b68f23fca093b948a38589ef9eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 47/98] fix: extensions are case insensitive also when files
 are not cached

---
 bomba_download_server.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 225b33e..ebed2f4 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -133,7 +133,10 @@ public:
 			std::cout << "Can't read " << fullPath << std::endl;
 			return false;
 		}
-		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
+		std::string extension = fullPath.extension().string();
+		for (char& c : extension)
+			c = std::tolower(c);
+		outputProvider.writeKnownSize(extensionDescription(extension), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-- 
2.43.0


From 9d8068575986a82c5eafd365e003b4b75b690ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 48/98] fix: generated files are added to the cache under the
 lock

---
 bomba_download_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index ebed2f4..f19b9a4 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -229,6 +229,7 @@ public:
 		reloadInternal();
 	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
+		std::lock_guard lock(_mutex); // Some other thread can be downloading
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-- 
2.43.0


From 33172970b12f2078de8ea350c26e34514e063942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 49/98] fix: generated files replace cached files of the same
 name

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index f19b9a4..379c068 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -233,7 +233,7 @@ public:
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-			_cache.insert(std::make_pair(name, std::move(entry)));
+			_cache.insert_or_assign(name, std::move(entry));
 		});
 	}
 	void addGeneratedFile(std::string_view name, const std::string& contents) {
-- 
2.43.0


From 85acea85a5da0b8d11b836d4aeaec375d23975f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 50/98] fix: separators are not repeated in described paths of
 deeply nested methods

---
 bomba_json_wsp_description.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..bd53434 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -156,7 +156,8 @@ public:
 	JsonWspDescription(IStructuredOutput::ObjectFiller& output, std::string_view name = "", std::string_view prefix = "") : _output(output) {
 		if (!prefix.empty()) {
 			_path += prefix;
-			_path += '.';
+			if (prefix.back() != '.')
+				_path += '.';
 		}
 		if (!name.empty()) {
 			_path += name;
-- 
2.43.0


From 5ed98f622aea937de4c698359b9f6cbddb2efbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 51/98] fix: only optional arguments are described as optional

---
 bomba_json_wsp_description.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index bd53434..c98bb9c 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -106,6 +106,7 @@ public:
 
 	void addMember(std::string_view name, std::string_view description, Callback<> writer) override {
 		_argCount++; // The numbering printed starts at 1
+		_optional = false; // Until this member says otherwise
 		auto result = _output.writeObject(name, 4);
 		result.writeInt("def_order", _argCount);
 		writeJsonWspDocumentation(result, description);
-- 
2.43.0


From abdd06562efe18bd259af9b6f34da2a049ede2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 52/98] fix: paths with trailing separators are not paths of
 methods

---
 bomba_core.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index d7c79ab..b7916fa 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -844,13 +844,16 @@ struct PathWithSeparator {
 				}
 				end++;
 			}
+			return current->getChild(std::string_view(start, end));
+
 			foundSeparator:;
-			
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
 			end++;
 			start = end;
+			if (start == path.end())
+				return nullptr; // There is no name behind the separator
 		}
 		return current;
 	}
-- 
2.43.0


From 0ab8b09e0afbd9385f2b25ba3e6959046f39f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 53/98] fix: methods use the current responder of their object,
 not the first one they used

---
 bomba_core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index b7916fa..6b0441a 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -764,15 +764,15 @@ class IRemoteCallable {
 protected:
 	void setSelfAsParent(IRemoteCallable* reparented) {
 		reparented->_parent = this;
-		reparented->_responder = _responder;
+		reparented->_responder = nullptr; // It will have the same one as this
 	}
 	void unsetParent(IRemoteCallable* reparented) {
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
 	}
 	IRpcResponder* findResponder() const { // Returns nullptr if it's not a client
-		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->findResponder(); // Lazy loading
+		if (!_responder && _parent)
+			return _parent->findResponder(); // Not stored because it can be replaced later
 		return _responder;
 	}
 	IRpcResponder* getResponder() const {
-- 
2.43.0


From e0328422c87cb14a97655b4e6cfc8cc694a40f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 54/98] fix: methods of copied remote objects belong to the
 copy

---
 bomba_core.hpp       | 6 ++++++
 bomba_rpc_object.hpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 6b0441a..644296e 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -786,6 +786,12 @@ public:
 	IRemoteCallable(IRemoteCallable* parent = nullptr, IRpcResponder* responder = nullptr)
 			: _parent(parent), _responder(responder) {}
 
+	// Copying does not place the copy into the same parent and assigning does not move it elsewhere
+	IRemoteCallable(const IRemoteCallable& other) : _responder(other._responder) {}
+	IRemoteCallable& operator=(const IRemoteCallable&) {
+		return *this;
+	}
+
 	IRemoteCallable* parent() const {
 		return _parent;
 	}
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 91efd2e..e505db7 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -850,6 +850,13 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 		auto parent = reinterpret_cast<Detail::RpcObjectCommon*>(reinterpret_cast<intptr_t>(this) - offset);
 		parent->addChild(this);
 	}
+	RpcMember(const RpcMember& other) : RpcStatelessLambda<Func, Flags>() {
+		// It's a member of a copy of the other's parent, at the same place
+		intptr_t parent = reinterpret_cast<intptr_t>(this)
+				- (reinterpret_cast<intptr_t>(&other) - reinterpret_cast<intptr_t>(other.parent()));
+		reinterpret_cast<Detail::RpcObjectCommon*>(parent)->addChild(this);
+	}
+	RpcMember& operator=(const RpcMember&) = default;
 private:
 
 	constexpr static Detail::ChildGettingFunction childGetter = [] (const IRemoteCallable* parent, int offset) {
-- 
2.43.0


From 84b83a16f7a32287a263e84cf4bc8b83912aa927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 55/98] fix: holding an entire remote object compiles

---
 bomba_dynamic_object.hpp |  2 +-
 bomba_rpc_object.hpp     | 27 +++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..05d51dd 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -62,7 +62,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index e505db7..6123af1 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -719,12 +719,34 @@ struct RpcStatelessLambda : public Detail::RpcLambdaRedirector<Flags, decltype(&
 
 namespace Detail {
 	class RpcObjectCommon : public IRemoteCallable {
+		inline static thread_local const RpcObjectCommon* copiedFrom = nullptr;
+		inline static thread_local RpcObjectCommon* copiedTo = nullptr;
 	protected:
 
 		RpcObjectCommon(RpcObjectCommon*& setup) {
 			setup = this;
 		}
+		RpcObjectCommon(const RpcObjectCommon& other) : IRemoteCallable(other) {
+			copiedFrom = &other;
+			copiedTo = this;
+		}
+		RpcObjectCommon& operator=(const RpcObjectCommon&) = default;
+		~RpcObjectCommon() {
+			if (copiedTo == this)
+				copiedTo = nullptr;
+		}
 	public:
+		static void placeCopiedChild(IRemoteCallable* child, const IRemoteCallable* original) {
+			auto offset = [] (const void* from, const void* to) {
+				return reinterpret_cast<intptr_t>(to) - reinterpret_cast<intptr_t>(from);
+			};
+			RpcObjectCommon* parent = static_cast<RpcObjectCommon*>(original->parent());
+			// If copied with its parent, it belongs to the copy of the parent
+			if (parent && parent == copiedFrom && copiedTo && offset(copiedFrom, original) == offset(copiedTo, child))
+				parent = copiedTo;
+			if (parent)
+				parent->setSelfAsParent(child);
+		}
 		template <auto Func, SerialisationFlags::Flags Flags>
 		void addChild(RpcStatelessLambda<Func, Flags>* added) {
 			setSelfAsParent(added);
@@ -851,10 +873,7 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 		parent->addChild(this);
 	}
 	RpcMember(const RpcMember& other) : RpcStatelessLambda<Func, Flags>() {
-		// It's a member of a copy of the other's parent, at the same place
-		intptr_t parent = reinterpret_cast<intptr_t>(this)
-				- (reinterpret_cast<intptr_t>(&other) - reinterpret_cast<intptr_t>(other.parent()));
-		reinterpret_cast<Detail::RpcObjectCommon*>(parent)->addChild(this);
+		Detail::RpcObjectCommon::placeCopiedChild(this, &other);
 	}
 	RpcMember& operator=(const RpcMember&) = default;
 private:
-- 
2.43.0


From b8ea3a7c8c6b840a71339e2c68ece58a807bbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 56/98] fix: what was captured by lambdas passed by reference
 is destroyed with them

---
 bomba_dynamic_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 05d51dd..20b4f81 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,7 +43,8 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				alignof(RpcLambda<std::decay_t<LambdaType>>) <= alignof(decltype(_content)) &&
+				std::is_trivially_copyable_v<std::decay_t<LambdaType>>) // It will be moved using memcpy
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From 9bc462a8c028ce29259a240a6c1a40465f84d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 57/98] fix: moving a holder into itself doesn't lose its
 contents

---
 bomba_dynamic_object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 20b4f81..0044ce5 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -75,6 +75,8 @@ public:
 	}
 
 	RpcLambdaHolder& operator=(RpcLambdaHolder&& other) {
+		if (this == &other)
+			return *this;
 		reset();
 		_isLocal = other._isLocal;
 		_info = other._info;
-- 
2.43.0


From af7efdc357c4b9aa6d92278059490e516ba5c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 58/98] fix: moving a dynamic object does not lose its
 responder

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 0044ce5..2ea1dd6 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -195,7 +195,7 @@ public:
 
 	DynamicRpcObject() = default;
 
-	DynamicRpcObject(DynamicRpcObject&& from) : _contents(std::move(from._contents)) {
+	DynamicRpcObject(DynamicRpcObject&& from) : IRemoteCallable(from), _contents(std::move(from._contents)) {
 		for (auto& [name, functor] : _contents) {
 			setSelfAsParent(&*functor);
 		}
-- 
2.43.0


From adc00bd7a74333722c95426dc982788d680cc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 59/98] fix: methods that are not lambdas in static or dynamic
 objects are described too

---
 bomba_core.hpp           |  6 ++++++
 bomba_dynamic_object.hpp | 10 ++++++++--
 bomba_rpc_object.hpp     | 10 ++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 644296e..f7aabcf 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -831,6 +831,12 @@ public:
 	virtual void generateDescription([[maybe_unused]] IRemoteCallableDescriptionFiller& filler) const {
 		// Not supported if not overloaded, does nothing
 	}
+	// Use the supplied interface to describe this as a part of another object
+	virtual void describeAsChild(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
+		filler.addSubobject(name, [this] (IRemoteCallableDescriptionFiller& nestedFiller) {
+			generateDescription(nestedFiller);
+		});
+	}
 	virtual ~IRemoteCallable() = default;
 };
 
diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 2ea1dd6..3dbcfd4 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -104,11 +104,17 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		if (_info)
+			_info->subtypesAdder(filler);
+		else
+			operator*().listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		if (_info)
+			_info->unnamedChildAdder(name, filler);
+		else
+			operator*().describeAsChild(name, filler);
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 6123af1..da3bcec 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -588,6 +588,16 @@ struct RpcLambdaInformationHolder {
 			}
 		});
 
+		void listTypes(ISerialisableDescriptionFiller& filler) const final override {
+			info.subtypesAdder(filler);
+		}
+		void generateDescription(IRemoteCallableDescriptionFiller& filler) const final override {
+			info.unnamedChildAdder("", filler); // The path of the root is empty
+		}
+		void describeAsChild(std::string_view name, IRemoteCallableDescriptionFiller& filler) const final override {
+			info.unnamedChildAdder(name, filler);
+		}
+
 		template <StringLiteral Name>
 		constexpr static Detail::ChildDescribingFunction childAdder = [] (IRemoteCallableDescriptionFiller& filler) {
 			info.unnamedChildAdder(Name, filler);
-- 
2.43.0


From 390ea99e47cd8c1114d8a5987b16fb43297dcb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 60/98] fix: types used inside containers of members are
 described

---
 bomba_core.hpp   | 7 +++++++
 bomba_object.hpp | 7 +------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f7aabcf..795ea53 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1004,6 +1004,13 @@ struct TypedSerialiser<Serialisable> {
 		});
 	}
 	static void listTypes(ISerialisableDescriptionFiller& filler) {
+		static thread_local bool listing = false;
+		if (listing)
+			return; // A recursive type is listed only once
+		struct ListingGuard {
+			ListingGuard() { listing = true; }
+			~ListingGuard() { listing = false; }
+		} guard;
 		Serialisable instance;
 		instance.listTypes(filler);
 		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& propertyFiller) {
diff --git a/bomba_object.hpp b/bomba_object.hpp
index f71e782..0ecf6fb 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -54,12 +54,7 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
-	}
+	TypedSerialiser<T>::listTypes(filler);
 }
 
 #ifndef NO_DEFECT_REPORT_2118
-- 
2.43.0


From 2c6fc2fe469b2a1267982f350648257ea96adeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 61/98] fix: every type is described only once

---
 bomba_json_wsp_description.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index c98bb9c..b993b1b 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -8,6 +8,9 @@
 #include "bomba_json.hpp"
 #endif
 
+#include <string>
+#include <vector>
+
 // Most information gathered from: https://zims-en.kiwix.campusafrica.gos.orange.com/wikipedia_en_all_nopic/A/JSON-WSP
 
 namespace Bomba {
@@ -71,6 +74,7 @@ public:
 class JsonWspTypeDescription : public ISerialisableDescriptionFiller {
 	IStructuredOutput::ObjectFiller& _output;
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
+	std::vector<std::string> _described;
 
 public:
 	JsonWspTypeDescription(IStructuredOutput::ObjectFiller& output) : _output(output) {}
@@ -80,6 +84,10 @@ public:
 	}
 
 	void fillMembers(std::string_view name, Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		for (auto& described : _described)
+			if (described == name)
+				return; // It can be used by many methods
+		_described.emplace_back(name);
 		auto object = _output.writeObject(name);
 		JsonWspMembersDescription descriptor(object);
 		filler(descriptor);
-- 
2.43.0


From fe0f1f71b7073102fc142bdf59c8ca64fce4faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 62/98] fix: objects that only contain methods can't be called

---
 bomba_http.hpp     | 17 +++++++++++------
 bomba_json_rpc.hpp |  5 +++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index feb2c8c..f2d1768 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -544,8 +544,7 @@ public:
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
 		NullStructredOutput nullOutput;
-		method->call(&input, nullOutput, {}, {});
-		return true;
+		return method->call(&input, nullOutput, {}, {}); // It may be only an object containing methods
 	}
 };
 
@@ -564,10 +563,16 @@ struct DownloadIfFilePresent : IHttpDispatcher {
 				NullStructredOutput nullResponse;
 				method->call(args, nullResponse, {}, {});
 			} else {
-				outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
-					typename OutputFormat::Output response(output);
-					method->call(args, response, {}, {});
-				});
+				struct NotAMethod {};
+				try {
+					outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
+						typename OutputFormat::Output response(output);
+						if (!method->call(args, response, {}, {}))
+							throw NotAMethod(); // It may be only an object containing methods
+					});
+				} catch (NotAMethod&) {
+					return false;
+				}
 			}
 			return true;
 		} else return fileFound;
diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 3ea2699..0f07206 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -87,7 +87,9 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			output.writeNull(noFlags);
 			introduceError(message, errorType);
 		};
+		bool hasResult = false;
 		auto introduceResult = [&] () {
+			hasResult = true;
 			if (responding)
 				output.introduceObjectMember(noFlags, "result", 2);
 		};
@@ -159,6 +161,9 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 					NullStructredOutput nullOutput;
 					method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 				}
+				if (!hasResult && !failed) [[unlikely]] {
+					introduceError("Not a method", JsonRpcError::METHOD_NOT_FOUND);
+				}
 			}
 		} catch (ParseError& e) {
 			introduceError(e.what(), JsonRpcError::PARSE_ERROR);
-- 
2.43.0


From 7d3d531dab5660ac5a90dc58bc7a888fe6e47b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 63/98] fix: reading floats from URL encoded data doesn't move
 to a random position

---
 bomba_http.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f2d1768..2a4d401 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -363,7 +363,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
-- 
2.43.0


From 6c016643960c95ebb68c5d18aa9c40fdf8b96b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 64/98] fix: escaped characters in integers in URL encoded data

---
 bomba_http.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 2a4d401..d1fc07f 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -351,10 +351,9 @@ struct HtmlMessageEncoding {
 		}
 
 		int64_t readInt(Flags) final override {
-			int end = getEnd();
+			std::string_view demangled = demangleTillEnd(); // Any characters can be escaped
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
-			_position = end;
+			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
 			return result;
-- 
2.43.0


From e02c3ee749b33df3f7f51fa9d76759873206fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 65/98] fix: large unsigned integers in URL encoded data

---
 bomba_http.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d1fc07f..57fd9c2 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -350,10 +350,16 @@ struct HtmlMessageEncoding {
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
 		}
 
-		int64_t readInt(Flags) final override {
+		int64_t readInt(Flags flags) final override {
 			std::string_view demangled = demangleTillEnd(); // Any characters can be escaped
 			int64_t result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
+			if (got.ec == std::errc::result_out_of_range
+					&& (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE) == SerialisationFlags::UINT_64) [[unlikely]] {
+				uint64_t large = 0;
+				got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), large);
+				result = int64_t(large);
+			}
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
 			return result;
@@ -443,8 +449,11 @@ struct HtmlMessageEncoding {
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
 
-		void writeInt(Flags, int64_t value) final override {
-			writeValue(value);
+		void writeInt(Flags flags, int64_t value) final override {
+			if ((flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE) == SerialisationFlags::UINT_64)
+				writeValue(uint64_t(value));
+			else
+				writeValue(value);
 		}
 		void writeFloat(Flags, double value) final override {
 			writeValue(value);
-- 
2.43.0


From 1cb96bae6554e7ed4fde5bd365bcf3d044ecc533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 66/98] fix: long numbers and positive exponents in URL encoded
 data

---
 bomba_http.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 57fd9c2..5cc683b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -441,10 +441,11 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // The longest are 24 characters of -1.2345678901234567e-308
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			std::to_chars_result end = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			std::string_view written = {bytes.data(), size_t(end.ptr - bytes.data())};
+			mangleHttpResponse(written, _contents); // There can be a plus sign in the exponent
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From bbd0198960126ba562aa2aef628db5e80018b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 67/98] fix: decoding the letter U+0800 in URL encoded data

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 5cc683b..4a864bc 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -177,7 +177,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
-- 
2.43.0


From 39f34d11657d346814df1e8e640698a33824c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 68/98] fix: fields with empty values in URL encoded data don't
 swallow the following ones

---
 bomba_http.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 4a864bc..1d8e8e9 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -400,25 +400,26 @@ struct HtmlMessageEncoding {
 					fail("Type doesn't support nested object");
 			_objectStarted = true;
 			int index = 0;
-			for (; _position < std::ssize(_contents); _position++) {
-				if (_contents[_position] == '&')
+			while (_position < std::ssize(_contents)) {
+				if (_contents[_position] == '&') {
 					_position++;
+					continue;
+				}
 				int start = _position;
-				while (_position < std::ssize(_contents) && _contents[_position] != '=')
+				while (_position < std::ssize(_contents) && _contents[_position] != '=' && _contents[_position] != '&')
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
+				if (_position < std::ssize(_contents) && _contents[_position] == '=')
+					_position++;
 				onEach(_demangled, index);
+				_position = getEnd(); // It could have been left unread
 				index++;
 			}
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
-			while (_position < std::ssize(_contents) && _contents[_position] != '&')
-				_position++;
+			_position = getEnd();
 		}
 
 		bool readOptional(Flags, Callback<> readValue) override {
-- 
2.43.0


From 3fad0fb1d8d356a29aa95e1aa1a2504d6889137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 69/98] fix: identifying types of URL encoded values

---
 bomba_http.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1d8e8e9..5ade2f2 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -333,9 +333,8 @@ struct HtmlMessageEncoding {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
-						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					if (demangledPos + 1 < std::ssize(demangled)
+							&& (demangled[demangledPos + 1] == '-' || demangled[demangledPos + 1] == '+'))
 						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
@@ -343,10 +342,11 @@ struct HtmlMessageEncoding {
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
-				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				} else if (demangled[demangledPos] < '0' || demangled[demangledPos] > '9')
 					return TYPE_STRING;
 			}
+			if (demangled.back() < '0' || demangled.back() > '9')
+				return TYPE_STRING;
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
 		}
 
-- 
2.43.0


From e8e64b0cda050ce37e7c7005a2b98a410e1b576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 70/98] fix: names of fields are escaped in URL encoded data

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 5ade2f2..08e21e7 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -492,7 +492,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From ba0b3cc8f72c1d38b1dd86665a9d72d51a1434c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 71/98] fix: URL encoding strings that look like encoded
 characters

---
 bomba_http.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 08e21e7..4bb9e16 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -243,6 +243,8 @@ void mangleHttpResponse(std::string_view input, StringType& output) {
 		unsigned char letter = *reinterpret_cast<const unsigned char*>(&input[i]);
 		if (letter == ' ')
 			output += '+';
+		else if (letter == '&' && i + 1 < std::ssize(input) && input[i + 1] == '#') [[unlikely]]
+			output += "%26%2338%3b"; // Must not be confused with an encoded character
 		else if (letter <= 0x7f) [[likely]]
 			encodeOne(letter);
 		else {
-- 
2.43.0


From 92b212d35380890fd2d6a4f5d18060481fe32eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 72/98] fix: false values and void results in URL encoded data

---
 bomba_http.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 4bb9e16..bd52cae 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -378,8 +378,7 @@ struct HtmlMessageEncoding {
 			return demangleTillEnd();
 		}
 		bool readBool(Flags) final override {
-			_position = getEnd();
-			return true;
+			return demangleTillEnd() != "false"; // Otherwise, false values are usually absent
 		}
 		void readNull(Flags) final override {
 			// Assuming it will be empty
@@ -466,13 +465,11 @@ struct HtmlMessageEncoding {
 			mangleHttpResponse(value, _contents);
 		}
 		void writeBool(Flags, bool value) final override {
-			if (value)
-				_contents += "true";
-			else
-				logicError("Bool must be written with the OMIT_FALSE flag");
+			_contents += value ? "true" : "false";
 		}
 		void writeNull(Flags flags) final override {
-			if (!(flags & Flags::EMPTY_IS_NULL))
+			// Being used as an entire response, it is simply empty
+			if (!(flags & Flags::EMPTY_IS_NULL) && _objectIndex != OBJECT_NOT_WRITTEN)
 				logicError("Null must be written with the EMPTY_IS_NULL flag");
 		}
 
-- 
2.43.0


From e3a5550ee7ad331527000393bf3b4d967fcbc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 73/98] fix: identifying the type of negative floats in JSON

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 7a1d24e..1b26ffe 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -126,7 +126,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + 1; _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From 3f783f386d8c083b89a99a98b04866094f4948bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 74/98] fix: bomba.js can send arrays and maps

---
 public_html/bomba.js | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index b90439a..fa99c36 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -108,16 +108,20 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
-function makeCheckIfExpectedType(name, described) {
+function makeCheckIfExpectedType(name, described, depth = 0) {
 	if (described === "number") {
 		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
 	} else if (described === "string") {
 		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
 	} else if (described === "boolean") {
 		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
-	} else if (typeof type === "object" && Array.isArray(type)) {
-		let result = `if (typeof ${name} != "object" || Array.isArray(${name})) { throw "${name} must be an array" } `;
-		result += `for (let i = 0; i < ${name}.length; i++) { ${ makeCheckIfExpectedType(name + "[i]", described[0]) } }`;
+	} else if (Array.isArray(described)) {
+		const index = `i${depth}`; // Arrays can be nested
+		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
+		return result;
+	} else if (described === "object") {
+		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
 	} else {
 		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
@@ -208,9 +212,10 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 			code += `\tif (arg_${argNames[i]} != undefined) `;
 		}
 		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]} === "object" && typeof arg_${argNames[i]}.constructor.name === "string")\n`;
+		code += `\t\tif (typeof arg_${argNames[i]}.toJson === "function")\n`;
 		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
-		code += `\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		code += `\t\telse\n`;
+		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
-- 
2.43.0


From 6cced49a408e2435c56691960d3b87173c15851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 75/98] fix: offsets of optional members that aren't trivially
 copyable

---
 bomba_object.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 0ecf6fb..23723f8 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -316,8 +316,7 @@ class Serialisable : public IDescribableSerialisable {
 				if (_setupInstance) [[unlikely]] {
 					// Can't assure here that the instance part of std::optional won't be left uninitialised if started as blank
 					T value;
-					value = std::decay_t<decltype(*value)>();
-					value = T(std::get<Enumeration>(_args)...);
+					value = std::decay_t<decltype(*value)>(); // Must stay there, it might be moved while being returned
 					return value;
 				} else {
 					return T(std::get<Enumeration>(_args)...);
-- 
2.43.0


From 5ee8b05f26325838e7e4d7fceffe29f2102add71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 76/98] fix: a wrong bracket after the last element of a fixed
 size array doesn't cause an infinite loop

---
 bomba_json.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 1b26ffe..3b6e00d 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -250,9 +250,10 @@ struct BasicJson {
 		}
 		bool nextArrayElement(Flags flags) final override {
 			eatWhitespace();
-			if (peekChar() != ']')
-				return true;
-			return false;
+			char next = peekChar();
+			if (next == '}') [[unlikely]] // It would never be consumed if elements were being skipped
+				fail("Expected JSON array element");
+			return (next != ']');
 		}
 		void endReadingArray(Flags flags) final override {
 			eatWhitespace();
-- 
2.43.0


From bf92d5793af9a221f83fb31c3cc2d2a24bcbc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 77/98] fix: a JSON-RPC request whose identifier is of a wrong
 type is refused without running the method

---
 bomba_json_rpc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 0f07206..3af8485 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -44,6 +44,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		IStructuredInput::Location paramsPosition;
 		IStructuredInput::Location endPosition;
 
+		bool knownId = true;
 		auto startResponse = [&] {
 			responding = true;
 			onResponseStarted();
@@ -70,6 +71,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			} else {
 				startResponse();
 				output.writeNull(noFlags);
+				knownId = (identified == IStructuredInput::TYPE_NULL);
 			}
 		};
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
@@ -137,6 +139,8 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			const IRemoteCallable* method = nullptr;
 			if (failed) {
 				// Already reported
+			} else if (!knownId) [[unlikely]] {
+				introduceError("Wrong type of request identifier", JsonRpcError::INVALID_REQUEST);
 			} else if (!knownVersion) [[unlikely]] {
 				introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
 			} else if (!knownMembers) [[unlikely]] {
-- 
2.43.0


From 569b7fbe32c4117f17b52b0d7f450ef51be1add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 78/98] fix: a JSON-RPC version that is not a string makes only
 that request invalid

---
 bomba_json_rpc.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 3af8485..01d91af 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -103,9 +103,12 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			if (input.identifyType(noFlags) == IStructuredInput::TYPE_OBJECT) [[likely]] {
 				input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
 					if (*nextName == "jsonrpc") {
-						if (input.readString(noFlags) != "2.0") [[unlikely]]
-							knownVersion = false;
-						return true;
+						if (input.identifyType(noFlags) == IStructuredInput::TYPE_STRING) [[likely]] {
+							if (input.readString(noFlags) != "2.0") [[unlikely]]
+								knownVersion = false;
+							return true;
+						}
+						knownVersion = false;
 					} else if (*nextName == "id") {
 						idPosition = input.storePosition(noFlags);
 					} else if (*nextName == "method") {
-- 
2.43.0


From 755cb84ee855ed3b909f98a0da205d52ef5c1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 79/98] fix: a JSON-RPC batch with something unreadable between
 requests gets a parse error as the response

---
 bomba_json_rpc.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 01d91af..dca754b 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -100,7 +100,8 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		bool knownVersion = true;
 		bool knownMembers = true;
 		try {
-			if (input.identifyType(noFlags) == IStructuredInput::TYPE_OBJECT) [[likely]] {
+			auto identified = input.identifyType(noFlags);
+			if (identified == IStructuredInput::TYPE_OBJECT) [[likely]] {
 				input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
 					if (*nextName == "jsonrpc") {
 						if (input.identifyType(noFlags) == IStructuredInput::TYPE_STRING) [[likely]] {
@@ -124,6 +125,8 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 				endPosition = input.storePosition(noFlags);
 				if (idPosition)
 					writeId();
+			} else if (identified == IStructuredInput::TYPE_INVALID) {
+				parseError("Request is not readable");
 			} else {
 				input.skipObjectElement(noFlags);
 				endPosition = input.storePosition(noFlags);
@@ -219,7 +222,7 @@ public:
 				auto hasNext = [&] {
 					try {
 						return input.nextArrayElement(noFlags);
-					} catch (ParseError&) {
+					} catch (std::exception&) {
 						return true; // Needs an error response
 					}
 				};
-- 
2.43.0


From eec800dbc8de2d9fd29f4972fedefc93007324db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 80/98] fix: an empty JSON-RPC batch is an invalid request and
 a batch of notifications has no response

---
 bomba_json_rpc.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index dca754b..93849d5 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -216,8 +216,9 @@ public:
 			auto inputType = input.identifyType(noFlags);
 			if (inputType == IStructuredInput::TYPE_ARRAY) {
 				// Handle an array of requests
+				auto arrayPosition = input.storePosition(noFlags);
 				input.startReadingArray(noFlags);
-				output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
+				bool empty = true;
 				int resultArrayIndex = 0;
 				auto hasNext = [&] {
 					try {
@@ -227,14 +228,21 @@ public:
 					}
 				};
 				while (hasNext()) {
+					empty = false;
 					bool readable = respondInternal(input, output, [&] () mutable {
+						if (resultArrayIndex == 0) // Nothing is sent if all are notifications
+							output.startWritingArray(noFlags, IStructuredOutput::UNKNOWN_SIZE);
 						output.introduceArrayElement(noFlags, resultArrayIndex);
 						resultArrayIndex++;
 					});
 					if (!readable)
 						break; // There's no telling where the next one starts
 				}
-				output.endWritingArray(noFlags);
+				if (empty) [[unlikely]] { // Not a valid batch
+					input.restorePosition(noFlags, arrayPosition);
+					respondInternal(input, output, {});
+				} else if (resultArrayIndex > 0) [[likely]]
+					output.endWritingArray(noFlags);
 				result = true; // Http should not report an error here
 			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
 				respondInternal(input, output, {});
-- 
2.43.0


From 46f35aae68db4d7dd1497a3b8f6c3356e20a9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 81/98] fix: paths without the initial slash must not reach
 methods

---
 bomba_http.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index bd52cae..328a581 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -546,8 +546,9 @@ public:
 	HtmlPostResponder(IRemoteCallable& callable) : _callable(callable) {}
 
 	bool post(std::string_view path, std::string_view, std::span<char> request, IWriteStarter&) override {
-		std::string_view editedPath = path.substr(1);
-		const IRemoteCallable* method = PathWithSeparator<"/", ResponseStringType>::findCallable(editedPath, &_callable);
+		if (!path.starts_with('/'))
+			return false;
+		const IRemoteCallable* method = PathWithSeparator<"/", ResponseStringType>::findCallable(path.substr(1), &_callable);
 		if (!method)
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
@@ -605,8 +606,8 @@ public:
 		std::optional<typename HtmlMessageEncoding<ResponseStringType>::Input> inputParsed = std::nullopt;
 		if (transition != std::string_view::npos) {
 			path = entirePath.substr(0, transition);
-			std::string_view editedPath = path.substr(1);
-			method = PathWithSeparator<"/", ResponseStringType>::findCallable(editedPath, &_callable);
+			if (path.starts_with('/'))
+				method = PathWithSeparator<"/", ResponseStringType>::findCallable(path.substr(1), &_callable);
 			inputParsed.emplace(entirePath.substr(transition + 1));
 		} else {
 			path = entirePath;
-- 
2.43.0


From 307f4bca05969a0532898695183977f11e0eb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 82/98] fix: binary client must not call other methods of
 objects with over 256 children

---
 bomba_binary_protocol.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index c30f2ac..63a29aa 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -378,7 +378,9 @@ public:
 			if (depth >= MaxDepth) [[unlikely]] throw std::logic_error("Max depth exceeded, set a greater depth as template argument");
 			if (depth > 0)
 				memmove(&path[1], &path[0], depth);
-			path[0] = parent->childName(it).second;
+			int index = parent->childName(it).second;
+			if (index < 0 || index > std::numeric_limits<uint8_t>::max()) [[unlikely]] throw std::logic_error("The method has too many siblings for the binary protocol");
+			path[0] = index;
 		}
 		for (int i = 0; i < depth; i++)
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
-- 
2.43.0


From 41776002cad6bf6547187766d9d0bf93e8ca1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:07 +0000
Subject: [PATCH 83/98] fix: separators of paths may have more characters

---
 bomba_core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 795ea53..9550f29 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -847,10 +847,11 @@ struct PathWithSeparator {
 		const IRemoteCallable* current = root;
 		while (start < path.end()) {
 			auto end = start;
+			auto next = start;
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
 					if (i + 1 == Separator.size()) {
-						end += i;
+						next = end + i + 1;
 						goto foundSeparator;
 					}
 				}
@@ -862,8 +863,7 @@ struct PathWithSeparator {
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
-			end++;
-			start = end;
+			start = next;
 			if (start == path.end())
 				return nullptr; // There is no name behind the separator
 		}
-- 
2.43.0


From 6a237a4c5e00ac6fbf1b19157ff78b7f917a54f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:13 +0000
Subject: [PATCH 84/98] fix: copies of remote objects containing other remote
 objects keep their own methods

---
 bomba_rpc_object.hpp | 51 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index da3bcec..dbec609 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -729,21 +729,46 @@ struct RpcStatelessLambda : public Detail::RpcLambdaRedirector<Flags, decltype(&
 
 namespace Detail {
 	class RpcObjectCommon : public IRemoteCallable {
-		inline static thread_local const RpcObjectCommon* copiedFrom = nullptr;
-		inline static thread_local RpcObjectCommon* copiedTo = nullptr;
+		inline static thread_local RpcObjectCommon* beingCopied = nullptr; // The innermost object whose children weren't all copied yet
+		RpcObjectCommon* beingCopiedAround = nullptr;
+		const RpcObjectCommon* copiedFrom = nullptr;
+		int childrenToCopy = 0;
+
+		void copyingFinished() {
+			for (RpcObjectCommon** it = &beingCopied; *it; it = &(*it)->beingCopiedAround)
+				if (*it == this) {
+					*it = beingCopiedAround;
+					break;
+				}
+		}
+		void placeChild(IRemoteCallable* child) {
+			setSelfAsParent(child);
+			if (childrenToCopy > 0) {
+				childrenToCopy--;
+				if (childrenToCopy == 0)
+					copyingFinished();
+			}
+		}
 	protected:
 
 		RpcObjectCommon(RpcObjectCommon*& setup) {
 			setup = this;
 		}
-		RpcObjectCommon(const RpcObjectCommon& other) : IRemoteCallable(other) {
-			copiedFrom = &other;
-			copiedTo = this;
+		RpcObjectCommon(const RpcObjectCommon& other) : IRemoteCallable(other), copiedFrom(&other) {
+			const IRemoteCallable& original = other;
+			while (original.getChild(childrenToCopy))
+				childrenToCopy++;
+			if (childrenToCopy > 0) {
+				beingCopiedAround = beingCopied;
+				beingCopied = this;
+			}
+		}
+		RpcObjectCommon& operator=(const RpcObjectCommon&) {
+			return *this;
 		}
-		RpcObjectCommon& operator=(const RpcObjectCommon&) = default;
 		~RpcObjectCommon() {
-			if (copiedTo == this)
-				copiedTo = nullptr;
+			if (childrenToCopy > 0) // Copying it was interrupted
+				copyingFinished();
 		}
 	public:
 		static void placeCopiedChild(IRemoteCallable* child, const IRemoteCallable* original) {
@@ -752,14 +777,18 @@ namespace Detail {
 			};
 			RpcObjectCommon* parent = static_cast<RpcObjectCommon*>(original->parent());
 			// If copied with its parent, it belongs to the copy of the parent
-			if (parent && parent == copiedFrom && copiedTo && offset(copiedFrom, original) == offset(copiedTo, child))
-				parent = copiedTo;
+			for (RpcObjectCommon* it = beingCopied; it && parent; it = it->beingCopiedAround) {
+				if (it->copiedFrom == parent && offset(parent, original) == offset(it, child)) {
+					it->placeChild(child);
+					return;
+				}
+			}
 			if (parent)
 				parent->setSelfAsParent(child);
 		}
 		template <auto Func, SerialisationFlags::Flags Flags>
 		void addChild(RpcStatelessLambda<Func, Flags>* added) {
-			setSelfAsParent(added);
+			placeChild(added);
 		}
 	};
 } // namespace Detail
-- 
2.43.0


From 5a56ef26f1ce9a16616d5c09e46d8ea7d01ca6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 85/98] fix: types whose names begin with an underscore are
 described under their own names

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 23723f8..c2cbfe0 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -471,7 +471,7 @@ public:
 
 	std::string_view getTypeName() const override {
 		const char* name = typeid(Child).name(); // Resolved at compile time, should not need RTTI
-		while (*name != '\0' && !(*name >= 'a' && *name <= 'z') && !(*name >= 'A' && *name <= 'Z'))
+		while (*name != '\0' && !(*name >= 'a' && *name <= 'z') && !(*name >= 'A' && *name <= 'Z') && *name != '_')
 			name++;
 		if (*name == '\0')
 			name = "object";
-- 
2.43.0


From c769f96a1346fb4a679cf6fcd2e1f33e83645cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 86/98] fix: files that can't be read are not served as empty
 or truncated from the cache

---
 bomba_download_server.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 379c068..80b70a4 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -191,6 +191,10 @@ class CachingFileServer : public FileServerBase {
 		std::streampos fileSize = file.tellg();
 		file.seekg(0, std::ios::beg);
 		entry.contents.insert(entry.contents.begin(), std::istream_iterator<char>(file), std::istream_iterator<char>());
+		if (!file.is_open() || file.bad()) [[unlikely]] {
+			std::cout << "Can't read " << path << std::endl;
+			return;
+		}
 
 		_fileNames.emplace_back(localPath);
 		_cache.insert(std::make_pair(std::string_view(_fileNames.back()), std::move(entry)));
-- 
2.43.0


From 4cc826cf85db3479a0fa39c00617d2016a4e6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 87/98] fix: a generated index file is served also as the root

---
 bomba_download_server.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 80b70a4..8a3205f 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -89,8 +89,10 @@ public:
 
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
+		if (foundGenerated == _generatedFiles.end() && (path.empty() || path == "/"))
+			foundGenerated = _generatedFiles.find("/index.html");
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string extension = std::filesystem::path(path).extension().string();
+			std::string extension = std::filesystem::path(foundGenerated->first).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
@@ -237,6 +239,8 @@ public:
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
+			if (name == "/index.html")
+				_cache.insert_or_assign("/", entry);
 			_cache.insert_or_assign(name, std::move(entry));
 		});
 	}
-- 
2.43.0


From c6a0b006ca8a278a82d07ed3d03b4c7668cee40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 88/98] fix: types of generated files do not depend on
 capitalisation of extensions

---
 bomba_download_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 8a3205f..00cd9df 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -93,6 +93,8 @@ public:
 			foundGenerated = _generatedFiles.find("/index.html");
 		if (foundGenerated != _generatedFiles.end()) {
 			std::string extension = std::filesystem::path(foundGenerated->first).extension().string();
+			for (char& c : extension)
+				c = std::tolower(c);
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From f50b2a65a4b76755444bc95c171239990d98fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:38 +0000
Subject: [PATCH 89/98] fix: average response time can be asked by another
 thread and before any response

---
 bomba_tcp_server.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 70ce4e5..5b88160 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -7,6 +7,7 @@
 
 #include <experimental/net>
 #include <vector>
+#include <atomic>
 #include <chrono>
 
 #include <iostream>
@@ -147,8 +148,8 @@ class TcpServer {
 	Net::io_context _context;
 	Net::ip::tcp::endpoint _endpoint;
 	Net::ip::tcp::acceptor _acceptor = {_context, _endpoint};
-	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
-	int64_t _totalResponses = 0;
+	std::atomic<std::chrono::nanoseconds::rep> _totalResponseTime = 0; // Can be read by another thread
+	std::atomic<int64_t> _totalResponses = 0;
 
 	struct Session : ITcpServerSession {
 		Net::ip::tcp::socket _socket;
@@ -175,7 +176,7 @@ class TcpServer {
 					readSome();
 				}
 				auto endTime = std::chrono::steady_clock::now();
-				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime);
+				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime).count();
 
 				if (!expectingMore) {
 					cancel();
@@ -272,7 +273,10 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		return _totalResponseTime / _totalResponses;
+		int64_t responses = _totalResponses;
+		if (responses == 0)
+			return std::chrono::nanoseconds(0);
+		return std::chrono::nanoseconds(_totalResponseTime) / responses;
 	}
 };
 
-- 
2.43.0


From 8e35a699efbfbdce59d1630abbe420f6852d857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 90/98] fix: names that are not JavaScript identifiers, or are
 inherited from Object, do not break the generated client

---
 public_html/bomba.js | 111 +++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 40 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index fa99c36..c6b7788 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -55,6 +55,35 @@ function extractType(type) {
 		return type;
 };
 
+// Names of anything in the API can be any texts, so these are used to insert them into the generated code
+function quoteForCode(name) {
+	return JSON.stringify(name);
+}
+
+function escapeForComment(text) {
+	return String(text).replaceAll("*/", "* /");
+}
+
+function makeArgumentNames(names) {
+	const used = new Set();
+	return names.map((name) => {
+		let argumentName = "arg_" + name.replace(/[^\p{ID_Continue}$]/gu, "_");
+		while (used.has(argumentName))
+			argumentName += "_";
+		used.add(argumentName);
+		return argumentName;
+	});
+}
+
+// Unlike with a simple assignment, any name is fine, even __proto__
+function setMember(object, name, value) {
+	Object.defineProperty(object, name, { value : value, writable : true, enumerable : true, configurable : true });
+}
+
+function hasMember(object, name) {
+	return Object.prototype.hasOwnProperty.call(object, name);
+}
+
 function makeGuiForArg(name, type, identifier, types) {
 	const typeObtained = type ?? identifier.type;
 	if (typeObtained === "boolean") {
@@ -109,53 +138,55 @@ function makeGuiForArg(name, type, identifier, types) {
 }
 	
 function makeCheckIfExpectedType(name, described, depth = 0) {
+	const complain = (text) => `throw ${quoteForCode(`${name} must be ${text}`)}`;
 	if (described === "number") {
-		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
+		return `if (typeof ${name} != "number") { ${complain("a number")} }`;
 	} else if (described === "string") {
-		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
+		return `if (typeof ${name} != "string") { ${complain("a string")} }`;
 	} else if (described === "boolean") {
-		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
+		return `if (typeof ${name} != "boolean") { ${complain("a boolean")} }`;
 	} else if (Array.isArray(described)) {
 		const index = `i${depth}`; // Arrays can be nested
-		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		let result = `if (!Array.isArray(${name})) { ${complain("an array")} } `;
 		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
 		return result;
 	} else if (described === "object") {
-		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { throw "${name} must be an object" }`;
+		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { ${complain("an object")} }`;
 	} else {
-		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
+		return `if (!(${name} instanceof types[${quoteForCode(described)}])) { ${complain(`an object of type ${described}`)} }`;
 	}
 }
 
 function generateApiClass(name, definition, types) {
-	let code = `(class ${name} {\n/**\n`;
-	code += ` * Creates a new instance of class ${name}\n`;
+	const argNames = makeArgumentNames(Object.keys(definition));
+	// The name can't be used as an identifier there because it could hide something or be reserved
+	let code = `({ [${quoteForCode(name)}] : class {\n/**\n`;
+	code += ` * Creates a new instance of class ${escapeForComment(name)}\n`;
 	for (const [name, type] of Object.entries(definition)) {
-		code += ` * @param {${extractType(type)}} ${name}\n`;
+		code += escapeForComment(` * @param {${extractType(type)}} ${name}`) + "\n";
 	}
 	code += " */\n\tconstructor("
 	Object.entries(definition).forEach( ([name, type], index) => {
 		if (index != 0) {
 			code += ", ";
 		}
-		code += `arg_${name} = `;
+		code += `${argNames[index]} = `;
 		if (type === "number") code += "0";
 		else if (type === "string") code += "''";
 		else if (type === "boolean") code += "false";
 		else if (typeof type === "object" && Array.isArray(type)) code += "[]";
 		else code += "null";
-		index++;
 	});
 	code += ") {\n";
-	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tthis.${name} = arg_${name}\n`;
-	}
+	Object.keys(definition).forEach( (name, index) => {
+		code += `\t\tsetMember(this, ${quoteForCode(name)}, ${argNames[index]})\n`;
+	});
 	code += "\t}\n\ttoJson() {\n";
 	code += "\t\tlet result = {}\n";
 	
 	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\t${ makeCheckIfExpectedType(`this.${name}`, type) }\n`;
-		code += `\t\tresult.${name} = this.${name}\n`;
+		code += `\t\t${ makeCheckIfExpectedType(`this[${quoteForCode(name)}]`, type) }\n`;
+		code += `\t\tsetMember(result, ${quoteForCode(name)}, this[${quoteForCode(name)}])\n`;
 	}
 	code += "\t\treturn result;\n";
 	code += "\t}\n";
@@ -164,58 +195,58 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tlet container = document.createElement('div')\n";
 	code += "\t\tcontainer.className = 'bombaObjectBox'\n";
 	code += "\t\tlet valueGetters = []\n";
-	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", "${type}", undefined, types)\n`;
-		code += `\t\tcontainer.appendChild(elem_${name})\n`;
-		code += `\t\tvalueGetters.push(() => this.${name} = getter_${name}())\n`;
-	}
+	Object.entries(definition).forEach( ([name, type], index) => {
+		code += `\t\tlet [elem_${index}, getter_${index}] = makeGuiForArg(${ quoteForCode(name) }, ${quoteForCode(type)}, undefined, types)\n`;
+		code += `\t\tcontainer.appendChild(elem_${index})\n`;
+		code += `\t\tvalueGetters.push(() => setMember(this, ${quoteForCode(name)}, getter_${index}()))\n`;
+	});
 	code += "\t\treturn [container, () => { for (const getter of valueGetters) getter(); return this; } ]\n";
 	
-	code += "\t}\n})";
+	code += `\t}\n} })[${quoteForCode(name)}]`;
 
 	const made = eval(code);
 	made.source = code;
 	return made;
 }
 
-function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, path) {
+function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, path, types) {
 	if (generateApiCall.messageIndex === undefined) {
 		generateApiCall.messageIndex = 0;
 	}
 	
+	const variables = makeArgumentNames(argNames);
 	let code = "/**\n";
 	if (docLines.length > 0) {
-		for (const line of returnInfo.doc_lines) {
-			code += ` * ${line}\n`;
+		for (const line of docLines) {
+			code += ` * ${escapeForComment(line)}\n`;
 		}
 		code += " *\n";
 	}
 	for (let i = 0; i < argNames.length; i++) {
 		const type = extractType(argDefinitions[i].type);
-		code += ` * @param {${type}} arg_${ argNames[i] } ${ argDefinitions[i].doc_lines.join(" ") } \n`;
+		code += escapeForComment(` * @param {${type}} ${variables[i]} ${ argDefinitions[i].doc_lines.join(" ") } `) + "\n";
 	}
-	code += ` * @return {${extractType(returnInfo.type)}} ${ returnInfo.doc_lines.join(" ") } \n`;
+	code += escapeForComment(` * @return {${extractType(returnInfo.type)}} ${ returnInfo.doc_lines.join(" ") } `) + "\n";
 	
 	code += " */\nasync (";
 	for (let i = 0; i < argNames.length; i++) {
 		if (i !== 0) {
 			code += ", ";
 		}
-		code += `arg_${argNames[i]}`;
+		code += variables[i];
 	}
 	code += ") => {\n";
 	
-	code += `\tconst request = { jsonrpc : '2.0', id : generateApiCall.messageIndex, method : '${name}', params : {} }\n`;
+	code += `\tconst request = { jsonrpc : '2.0', id : generateApiCall.messageIndex, method : ${quoteForCode(name)}, params : {} }\n`;
 	code += "\tgenerateApiCall.messageIndex++\n";
 	for (let i = 0; i < argNames.length; i++) {
 		if (argDefinitions[i].optional) {
-			code += `\tif (arg_${argNames[i]} != undefined) `;
+			code += `\tif (${variables[i]} != undefined) `;
 		}
-		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]}.toJson === "function")\n`;
-		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
-		code += `\t\telse\n`;
-		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		const isClass = hasMember(types, argDefinitions[i].type);
+		const value = isClass ? `types[${quoteForCode(argDefinitions[i].type)}].prototype.toJson.call(${variables[i]})` : variables[i];
+		code += `\t{\n\t\t${ makeCheckIfExpectedType(variables[i], argDefinitions[i].type) }\n`;
+		code += `\t\tsetMember(request.params, ${quoteForCode(argNames[i])}, ${value})\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
@@ -279,7 +310,7 @@ export async function loadApi(path) {
 	const types = {};
 	
 	for (const [name, members] of Object.entries(description.types)) {
-		types[name] = generateApiClass(name, members, types);
+		setMember(types, name, generateApiClass(name, members, types));
 	}
 	for (const [name, method] of Object.entries(description.methods)) {
 		const nameParts = name.split(".");
@@ -297,15 +328,15 @@ export async function loadApi(path) {
 			}
 		}
 		
-		const made = generateApiCall(name, argNames, argDefinitions, method.doc_lines, method.ret_info, path);
+		const made = generateApiCall(name, argNames, argDefinitions, method.doc_lines, method.ret_info, path, types);
 		made.gui = () => generateApiCallGui(made, name, argNames, argDefinitions, types);
 		
 		nameParts.forEach( (part, index) => {
 			if (index === nameParts.length - 1) {
-				subApi[part] = made;
+				setMember(subApi, part, made);
 			} else {
-				if (subApi[part] === undefined) {
-					subApi[part] = {};
+				if (!hasMember(subApi, part)) {
+					setMember(subApi, part, {});
 				}
 				subApi = subApi[part];
 			}
-- 
2.43.0


From 9c27bd050a08b7f2a558f32fbdea82ee2dfc8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 91/98] fix: nested objects and arrays of objects are checked
 and converted by the JavaScript client

---
 public_html/bomba.js | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index c6b7788..cc0e595 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -137,23 +137,24 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
-function makeCheckIfExpectedType(name, described, depth = 0) {
-	const complain = (text) => `throw ${quoteForCode(`${name} must be ${text}`)}`;
-	if (described === "number") {
-		return `if (typeof ${name} != "number") { ${complain("a number")} }`;
-	} else if (described === "string") {
-		return `if (typeof ${name} != "string") { ${complain("a string")} }`;
-	} else if (described === "boolean") {
-		return `if (typeof ${name} != "boolean") { ${complain("a boolean")} }`;
+// Checks that the value is of the described type, including everything it contains, and makes it sendable
+function checkAndConvert(name, value, described, types) {
+	const expect = (condition, text) => {
+		if (!condition)
+			throw `${name} must be ${text}`;
+	}
+	if (described === "number" || described === "string" || described === "boolean") {
+		expect(typeof value === described, `a ${described}`);
+		return value;
 	} else if (Array.isArray(described)) {
-		const index = `i${depth}`; // Arrays can be nested
-		let result = `if (!Array.isArray(${name})) { ${complain("an array")} } `;
-		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
-		return result;
+		expect(Array.isArray(value), "an array");
+		return Array.from(value, (element, index) => checkAndConvert(`${name}[${index}]`, element, described[0], types));
 	} else if (described === "object") {
-		return `if (typeof ${name} != "object" || ${name} === null || Array.isArray(${name})) { ${complain("an object")} }`;
+		expect(typeof value === "object" && value !== null && !Array.isArray(value), "an object");
+		return value;
 	} else {
-		return `if (!(${name} instanceof types[${quoteForCode(described)}])) { ${complain(`an object of type ${described}`)} }`;
+		expect(hasMember(types, described) && value instanceof types[described], `an object of type ${described}`);
+		return types[described].prototype.toJson.call(value);
 	}
 }
 
@@ -185,8 +186,8 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tlet result = {}\n";
 	
 	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\t${ makeCheckIfExpectedType(`this[${quoteForCode(name)}]`, type) }\n`;
-		code += `\t\tsetMember(result, ${quoteForCode(name)}, this[${quoteForCode(name)}])\n`;
+		const quoted = quoteForCode(name);
+		code += `\t\tsetMember(result, ${quoted}, checkAndConvert(${quoted}, this[${quoted}], ${quoteForCode(type)}, types))\n`;
 	}
 	code += "\t\treturn result;\n";
 	code += "\t}\n";
@@ -243,11 +244,8 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 		if (argDefinitions[i].optional) {
 			code += `\tif (${variables[i]} != undefined) `;
 		}
-		const isClass = hasMember(types, argDefinitions[i].type);
-		const value = isClass ? `types[${quoteForCode(argDefinitions[i].type)}].prototype.toJson.call(${variables[i]})` : variables[i];
-		code += `\t{\n\t\t${ makeCheckIfExpectedType(variables[i], argDefinitions[i].type) }\n`;
-		code += `\t\tsetMember(request.params, ${quoteForCode(argNames[i])}, ${value})\n`;
-		code += "\t}\n";
+		const quoted = quoteForCode(argNames[i]);
+		code += `\tsetMember(request.params, ${quoted}, checkAndConvert(${quoted}, ${variables[i]}, ${quoteForCode(argDefinitions[i].type)}, types))\n`;
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
 	code += "\tconst response = await getJson('', path, { method : 'POST', cache: 'no-cache', headers: {'Content-Type': 'application/json'}, body : stringified} )\n";
-- 
2.43.0


From 98fa2a299ce5f3f06e718a338976409e575919e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 92/98] fix: GUI of nested services does not crash and methods
 named gui are kept

---
 public_html/bomba.js | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index cc0e595..935b1ad 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -344,17 +344,20 @@ export async function loadApi(path) {
 	const makeApiGuiGenerator = (api, name) => {
 		let elementMakers = [];
 		for (const [subName, value] of Object.entries(api)) {
-			if (typeof value != "function") {
-				value.gui = makeApiGuiGenerator(value, subName);
+			if (typeof value == "function") {
+				elementMakers.push(value.gui);
+			} else {
+				elementMakers.push(makeApiGuiGenerator(value, subName));
 			}
-			elementMakers.push(value.gui);
 		}
-		api.gui = () => {
+		const generator = () => {
 			let container;
-			if (name) {
+			if (name !== undefined) {
 				container = document.createElement("details");
 				container.open = true;
-				container.appendChild(document.createElement(name));
+				const summary = document.createElement("summary");
+				summary.textContent = humanise(name);
+				container.appendChild(summary);
 			} else {
 				container = document.createElement("div");
 			}
@@ -362,7 +365,11 @@ export async function loadApi(path) {
 				container.appendChild(maker());
 			}
 			return container;
+		};
+		if (!hasMember(api, "gui")) { // The service can have its own
+			api.gui = generator;
 		}
+		return generator;
 	};
 	makeApiGuiGenerator(api);
 	
-- 
2.43.0


From a37b0d824121efca73f207333261d2bc10114bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 93/98] fix: loadApi obtains the description from the given
 address

---
 public_html/bomba.js | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 935b1ad..e994cb9 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -2,7 +2,14 @@ async function getJson(target, basePath = "", extraParams) {
 	if (typeof window === "undefined") {
 		if (!basePath) {
 			basePath = 'http://0.0.0.0:8080/';
+		} else if (!basePath.includes("://")) {
+			basePath = 'http://' + basePath;
 		}
+	}
+	if (basePath && target && !basePath.endsWith("/")) {
+		basePath += "/";
+	}
+	if (typeof window === "undefined") {
 		if (getJson.fetch === undefined) {
 			getJson.fetch = (...args) => import("node-fetch").then(({default: fetch}) => fetch(...args));
 		}
@@ -303,7 +310,7 @@ function generateApiCallGui(callee, name, argNames, argDefinitions, types) {
 }
 
 export async function loadApi(path) {
-	const description = await getJson("api_description.json");
+	const description = await getJson("api_description.json", path);
 	const api = {};
 	const types = {};
 	
-- 
2.43.0


From 92a8dd48cbb3c0ec5a949296605aa3241c5cce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 94/98] fix: absent members of class types do not make calls
 from JavaScript impossible

---
 public_html/bomba.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index e994cb9..dc54a3a 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -194,6 +194,9 @@ function generateApiClass(name, definition, types) {
 	
 	for (const [name, type] of Object.entries(definition)) {
 		const quoted = quoteForCode(name);
+		if (typeof type === "string" && !["number", "string", "boolean", "object"].includes(type)) { // Objects inside may be absent
+			code += `\t\tif (this[${quoted}] != undefined)\n\t`;
+		}
 		code += `\t\tsetMember(result, ${quoted}, checkAndConvert(${quoted}, this[${quoted}], ${quoteForCode(type)}, types))\n`;
 	}
 	code += "\t\treturn result;\n";
-- 
2.43.0


From 9c103c3133f50a05d5f5eb54e42b8512543b6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:55 +0000
Subject: [PATCH 95/98] fix: GUI of maps and recursive types can be made, names
 are not treated as HTML

---
 public_html/bomba.js | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index dc54a3a..b64d005 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -91,7 +91,7 @@ function hasMember(object, name) {
 	return Object.prototype.hasOwnProperty.call(object, name);
 }
 
-function makeGuiForArg(name, type, identifier, types) {
+function makeGuiForArg(name, type, identifier, types, outerTypes = []) {
 	const typeObtained = type ?? identifier.type;
 	if (typeObtained === "boolean") {
 		const box = document.createElement("label");
@@ -130,6 +130,12 @@ function makeGuiForArg(name, type, identifier, types) {
 	} else if (Array.isArray(typeObtained)) {
 		const space = document.createElement("div");
 		return [space, () => { return []; }];
+	} else if (typeObtained === "object") {
+		const space = document.createElement("div");
+		return [space, () => { return {}; }];
+	} else if (outerTypes.includes(typeObtained)) { // It would be infinite
+		const space = document.createElement("div");
+		return [space, () => { return null; }];
 	} else {
 		const space = document.createElement("fieldset");
 		space.className = "bombaFrame";
@@ -137,7 +143,7 @@ function makeGuiForArg(name, type, identifier, types) {
 		legend.textContent = humanise(name);
 		space.appendChild(legend);
 		const made = new types[typeObtained];
-		const [element, getter] = made.gui();
+		const [element, getter] = types[typeObtained].prototype.gui.call(made, [...outerTypes, typeObtained]);
 		space.appendChild(element);
 		return [space, getter];
 	}
@@ -202,12 +208,12 @@ function generateApiClass(name, definition, types) {
 	code += "\t\treturn result;\n";
 	code += "\t}\n";
 	
-	code += "\tgui() {\n"
+	code += "\tgui(outerTypes = []) {\n"
 	code += "\t\tlet container = document.createElement('div')\n";
 	code += "\t\tcontainer.className = 'bombaObjectBox'\n";
 	code += "\t\tlet valueGetters = []\n";
 	Object.entries(definition).forEach( ([name, type], index) => {
-		code += `\t\tlet [elem_${index}, getter_${index}] = makeGuiForArg(${ quoteForCode(name) }, ${quoteForCode(type)}, undefined, types)\n`;
+		code += `\t\tlet [elem_${index}, getter_${index}] = makeGuiForArg(${ quoteForCode(name) }, ${quoteForCode(type)}, undefined, types, outerTypes)\n`;
 		code += `\t\tcontainer.appendChild(elem_${index})\n`;
 		code += `\t\tvalueGetters.push(() => setMember(this, ${quoteForCode(name)}, getter_${index}()))\n`;
 	});
@@ -295,7 +301,7 @@ function generateApiCallGui(callee, name, argNames, argDefinitions, types) {
 	buttonSpace.appendChild(resultTitle);
 	
 	const button = document.createElement("button");
-	button.innerHTML = text;
+	button.textContent = text;
 	button.onclick = async () => {
 		let args = [];
 		for (const getter of argGetters) {
-- 
2.43.0


From a5483bb511cb9d30f812f7dd3fd029072e76b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 96/98] fix: buffers can be appended and counted over 2 GiB

---
 bomba_core.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 9550f29..391f459 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -430,7 +430,7 @@ private:
 class GeneralisedBuffer {
 	using BufferType = std::span<char>;
 	BufferType _buffer;
-	int _size = 0;
+	int64_t _size = 0;
 
 public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
@@ -448,9 +448,9 @@ public:
 	}
 
 	GeneralisedBuffer& operator+=(std::span<const char> added) {
-		int position = 0;
-		while (position < int(added.size())) {
-			int toCopy = std::min<int>(added.size() - position, remainingSpace());
+		size_t position = 0;
+		while (position < added.size()) {
+			size_t toCopy = std::min<size_t>(added.size() - position, remainingSpace());
 			memcpy(_buffer.data(), added.data() + position, toCopy);
 			_buffer = BufferType(_buffer.begin() + toCopy, _buffer.end());
 			_size += toCopy;
@@ -470,7 +470,7 @@ public:
 		return operator+=(std::span<const char>(added, strlen(added)));
 	}
 
-	int size() {
+	int64_t size() {
 		return _size;
 	}
 
@@ -483,7 +483,7 @@ protected:
 		_buffer = newBuffer;
 		_size = 0;
 	}
-	int remainingSpace() const {
+	size_t remainingSpace() const {
 		return _buffer.size();
 	}
 };
@@ -492,7 +492,7 @@ template <int StaticSize = 1024>
 class StreamingBuffer : public GeneralisedBuffer {
 protected:
 	std::array<char, StaticSize> _basic;
-	int _sizeAtLastFlush = 0;
+	int64_t _sizeAtLastFlush = 0;
 
 	bool bufferFull() override {
 		flush();
-- 
2.43.0


From 0de225c71aa61f403c267b3cbcde66c557a70c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 97/98] fix: announced size of a response is not cut to 32 bits

---
 bomba_http.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 328a581..207ac4a 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -728,14 +728,13 @@ public:
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
 							target += unsetSize;
 						} else {
-							std::array<char, sizeof(unsetSize)> sizeBuffer;
-							memcpy(sizeBuffer.data(), unsetSize, sizeBuffer.size());
+							std::array<char, 24> sizeBuffer = {' '};
 							auto written = std::to_chars(sizeBuffer.data() + 1, sizeBuffer.data() + sizeBuffer.size(), *size);
 							target += std::string_view(sizeBuffer.data(), written.ptr - sizeBuffer.data());
 						}
-- 
2.43.0


From e91837e75fe100c0441cd6951da26e8bd316f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 98/98] fix: files over 4 GiB can be sent

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 00cd9df..1a54679 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -144,7 +144,7 @@ public:
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-				int amount = std::min<int>(buffer.size(), size - position);
+				int amount = std::min<uintmax_t>(buffer.size(), size - position);
 				file.read(buffer.data(), amount);
 				if (file.gcount() != amount) [[unlikely]]
 					logicError("File could not be read entirely");
-- 
2.43.0

