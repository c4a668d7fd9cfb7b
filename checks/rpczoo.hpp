// Remote objects with reference implementations of their methods, shared by the checks of remote calls
#ifndef RPCZOO_HPP
#define RPCZOO_HPP
#include "zoo.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"

namespace rpczoo {
using namespace zoo;

inline std::vector<std::string> calls; // Every run of a method
template <typename... A>
std::string callText(std::string_view name, const A&... args) {
	std::string r = std::string(name) + "(";
	((r += show(Kit<A>::node(args)) + ";"), ...);
	return r + ")";
}
template <typename... A>
void called(std::string_view name, const A&... args) { calls.push_back(callText(name, args...)); }

using Pair = Two<int32_t, std::string>;
using List = std::vector<int32_t>;
using Names = std::map<std::string, std::string>;

// What the methods are supposed to do
inline int32_t pureAdd(int32_t a, int32_t b) { return int32_t(uint32_t(a) + uint32_t(b)); }
inline std::string pureRepeat(std::string text, int16_t times) {
	std::string r;
	for (int i = 0; i < times && i < 5000; i++) r += text;
	return r;
}
inline void pureNote(std::string, bool) {}
inline uint64_t pureNumber() { return 18446744073709551615ull; }
inline List pureEach(List list, bool negate) { for (auto& it : list) it = negate ? int32_t(-uint32_t(it)) : it; return list; }
inline Pair pureSwap(Pair pair) { Pair r; r.a = int32_t(pair.b.size()); r.b = pair.b + "|" + std::to_string(pair.a); return r; }
inline int32_t pureFail(int32_t when) { if (when < 0) throw std::runtime_error("it failed"); return when; }
inline Optional<std::string> pureMaybe(Optional<std::string> text) { return text; }
inline double pureScale(double a, float b, uint8_t c) { return a * b + c; }
inline Names pureNames(Names names) { names["added"] = "x"; return names; }
inline bool pureNot(bool value) { return !value; }
inline void pureStop() {}
inline std::string pureEcho(std::string text) { return text; }

struct Calc : RpcObject<Calc> {
	RpcMember<[] (int32_t a = name("a"), int32_t b = name("b")) { called("add", a, b); return pureAdd(a, b); }> add = child<"add">;
	RpcMember<[] (std::string text = name("text"), int16_t times = name("times")) { called("repeat", text, times); return pureRepeat(text, times); }> repeat = child<"repeat">;
	RpcMember<[] (Calc* parent, std::string text = name("text"), bool loud = name("loud")) { called(parent ? "note" : "note without parent", text, loud); }> note = child<"note">;
	RpcMember<[] () { called("number"); return pureNumber(); }> number = child<"number">;
	RpcMember<[] (List list = name("list"), bool negate = name("negate")) { called("each", list, negate); return pureEach(list, negate); }> each = child<"each">;
	RpcMember<[] (Pair pair = name("pair")) { called("swap", pair); return pureSwap(pair); }> swap = child<"swap">;
	RpcMember<[] (int32_t when = name("when")) { called("fail", when); return pureFail(when); }> fail = child<"fail">;
	RpcMember<[] (Optional<std::string> text = name("text")) { called("maybe", text); return pureMaybe(text); }> maybe = child<"maybe">;
	RpcMember<[] (double a = name("a"), float b = name("b"), uint8_t c = name("c")) { called("scale", a, b, c); return pureScale(a, b, c); }> scale = child<"scale">;
	RpcMember<[] (Names names = name("names")) { called("names", names); return pureNames(names); }> names = child<"names">;
	RpcMember<[] (bool value = name("value")) { called("not", value); return pureNot(value); }> negate = child<"not">;
	RpcMember<[] () { called("stop"); }> stop = child<"stop">;
	RpcMember<[] (std::string text = name("text")) { called("echo", text); return pureEcho(text); }> echo = child<"echo">;
};

// A result that may be fetched later
struct AnyFuture {
	virtual bool ready() = 0;
	virtual Node get() = 0; // Throws if it's an error
	virtual ~AnyFuture() = default;
};
template <typename R>
struct FutureOf : AnyFuture {
	Future<R> future;
	template <typename F> FutureOf(F&& make) : future(make()) {}
	bool ready() override { return future.is_ready(); }
	Node get() override {
		if constexpr(std::is_void_v<R>) { future.get(); return Node::null(); }
		else return Kit<R>::node(future.get());
	}
};

// A call with particular arguments and what has to come of it
struct Sample {
	std::string name; // Of the method
	int index = 0; // Among its siblings
	std::vector<std::string> argNames;
	std::vector<Node> args;
	bool isVoid = false, throws = false;
	Node result;
	std::string log; // What the method notes if it's run
	std::string binaryArgs[9], binaryResult[9]; // By width of sizes, only 1, 2 and 4
	bool urlEncodable = true; // All arguments can be written in a URL
	std::function<Node(Calc&)> call;
	std::function<std::unique_ptr<AnyFuture>(Calc&)> async;
	std::string text() const {
		std::string r = name + "(";
		for (size_t i = 0; i < args.size(); i++) r += (i ? "," : "") + argNames[i] + "=" + show(args[i]);
		return r + ")";
	}
};

template <typename M, typename R, typename... A>
struct MethodOf {
	const char* name;
	int index;
	std::vector<std::string> argNames;
	M Calc::*member;
	R (*pure)(A...);
	static bool plain(const Node& n) { return n.kind != Node::Arr && n.kind != Node::Obj && n.kind != Node::Null; }
	Sample with(A... args) const {
		Sample s;
		s.name = name;
		s.index = index;
		s.argNames = argNames;
		s.args = {Kit<A>::node(args)...};
		for (auto& it : s.args) if (!plain(it)) s.urlEncodable = false;
		s.isVoid = std::is_void_v<R>;
		s.log = callText(name, args...);
		for (int width : {1, 2, 4}) (Kit<A>::binary(s.binaryArgs[width], args, width), ...);
		try {
			if constexpr(std::is_void_v<R>) pure(args...);
			else {
				R result = pure(args...);
				s.result = Kit<R>::node(result);
				for (int width : {1, 2, 4}) Kit<R>::binary(s.binaryResult[width], result, width);
			}
		} catch (std::exception&) { s.throws = true; }
		s.call = [member = member, args...] (Calc& on) {
			if constexpr(std::is_void_v<R>) { (on.*member)(args...); return Node::null(); }
			else return Kit<R>::node((on.*member)(args...));
		};
		s.async = [member = member, args...] (Calc& on) -> std::unique_ptr<AnyFuture> {
			return std::make_unique<FutureOf<R>>([&] { return (on.*member).async(args...); });
		};
		return s;
	}
	Sample any(int level) const {
		std::tuple<A...> args{Kit<A>::gen(level)...};
		return std::apply([&] (auto&... each) { return with(each...); }, args);
	}
};
template <typename M, typename R, typename... A>
MethodOf<M, R, A...> method(const char* name, int index, std::vector<std::string> argNames, M Calc::*member, R (*pure)(A...)) {
	return {name, index, std::move(argNames), member, pure};
}
static const auto mAdd = method("add", 0, {"a", "b"}, &Calc::add, pureAdd);
static const auto mRepeat = method("repeat", 1, {"text", "times"}, &Calc::repeat, pureRepeat);
static const auto mNote = method("note", 2, {"text", "loud"}, &Calc::note, pureNote);
static const auto mNumber = method("number", 3, {}, &Calc::number, pureNumber);
static const auto mEach = method("each", 4, {"list", "negate"}, &Calc::each, pureEach);
static const auto mSwap = method("swap", 5, {"pair"}, &Calc::swap, pureSwap);
static const auto mFail = method("fail", 6, {"when"}, &Calc::fail, pureFail);
static const auto mMaybe = method("maybe", 7, {"text"}, &Calc::maybe, pureMaybe);
static const auto mScale = method("scale", 8, {"a", "b", "c"}, &Calc::scale, pureScale);
static const auto mNames = method("names", 9, {"names"}, &Calc::names, pureNames);
static const auto mNot = method("not", 10, {"value"}, &Calc::negate, pureNot);
static const auto mStop = method("stop", 11, {}, &Calc::stop, pureStop);
static const auto mEcho = method("echo", 12, {"text"}, &Calc::echo, pureEcho);
constexpr int methodCount = 13;
inline Sample anyCall(int methodIndex, int level) {
	switch (methodIndex) {
	case 0: return mAdd.any(level); case 1: return mRepeat.any(level); case 2: return mNote.any(level); case 3: return mNumber.any(level);
	case 4: return mEach.any(level); case 5: return mSwap.any(level); case 6: return mFail.any(level); case 7: return mMaybe.any(level);
	case 8: return mScale.any(level); case 9: return mNames.any(level); case 10: return mNot.any(level); case 11: return mStop.any(level);
	default: return mEcho.any(level);
	}
}

// Strings in JSON by an independent writer
inline std::string jsonText(const Node& n) {
	switch (n.kind) {
	case Node::Null: return "null";
	case Node::Bool: return n.b ? "true" : "false";
	case Node::Int: return intText(n.i);
	case Node::Float: return mc::fmt("%.17g", n.d);
	case Node::Str: {
		std::string r = "\"";
		for (unsigned char c : n.s) {
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 0x20) r += mc::fmt("\\u%04x", c);
			else r += char(c);
		}
		return r + "\"";
	}
	case Node::Arr: { std::string r = "["; for (auto& it : n.a) r += (r.size() > 1 ? "," : "") + jsonText(it); return r + "]"; }
	case Node::Obj: { std::string r = "{"; for (auto& it : n.o) r += (r.size() > 1 ? "," : "") + jsonText(Node::string(it.first)) + ":" + jsonText(it.second); return r + "}"; }
	}
	return "";
}

// An independent decoder of the binary format
struct BinaryRef {
	std::string_view in;
	int width;
	bool take(size_t n, std::string_view& out) {
		if (n > in.size()) return false;
		out = in.substr(0, n);
		in.remove_prefix(n);
		return true;
	}
	bool size(uint64_t& n) {
		std::string_view s;
		if (!take(width, s)) return false;
		n = 0;
		for (int i = 0; i < width; i++) n |= uint64_t((unsigned char)s[i]) << (8 * i);
		return n <= 0x7fffffff;
	}
	bool read(bool& v) { std::string_view s; if (!take(1, s)) return false; v = s[0] != 0; return true; }
	template <typename N> requires(std::is_arithmetic_v<N> && !std::is_same_v<N, bool>)
	bool read(N& v) { std::string_view s; if (!take(sizeof(N), s)) return false; memcpy(&v, s.data(), sizeof(N)); return true; }
	bool read(std::string& v) { uint64_t n; std::string_view s; if (!size(n) || !take(n, s)) return false; v = s; return true; }
	template <typename T> bool read(std::vector<T>& v) {
		uint64_t n;
		if (!size(n)) return false;
		v.clear();
		for (uint64_t i = 0; i < n; i++) { T t{}; if (!read(t)) return false; v.push_back(std::move(t)); }
		return true;
	}
	template <typename T, size_t N> bool read(std::array<T, N>& v) {
		uint64_t n;
		if (!size(n) || n > N) return false;
		for (uint64_t i = 0; i < n; i++) if (!read(v[i])) return false;
		return true;
	}
	template <typename T> bool read(std::map<std::string, T>& v) {
		uint64_t n;
		if (!size(n)) return false;
		v.clear();
		for (uint64_t i = 0; i < n; i++) { std::string k; T t{}; if (!read(k) || !read(t)) return false; v[k] = std::move(t); }
		return true;
	}
	template <typename P> requires requires (P p) { p.reset(); *p; }
	bool read(P& v) {
		bool present;
		if (!read(present)) return false;
		if (!present) { v.reset(); return true; }
		std::decay_t<decltype(*v)> t{};
		if (!read(t)) return false;
		if constexpr(requires { P(new std::decay_t<decltype(*v)>()); }) v = P(new std::decay_t<decltype(*v)>(std::move(t)));
		else v = std::move(t);
		return true;
	}
	template <typename T> bool read(One<T>& v) { return read(v.a); }
	template <typename T, typename U> bool read(Two<T, U>& v) { return read(v.a) && read(v.b); }
	template <typename T, typename U, typename V> bool read(Three<T, U, V>& v) { return read(v.first) && read(v.second) && read(v.first2); }
};

template <typename M, typename R, typename... A>
std::optional<Sample> decodeFor(const MethodOf<M, R, A...>& m, BinaryRef& in) {
	std::tuple<A...> args{};
	bool okay = std::apply([&] (auto&... each) { return (in.read(each) && ...); }, args);
	if (!okay) return std::nullopt;
	return std::apply([&] (auto&... each) { return m.with(each...); }, args);
}
// The call that binary arguments mean
inline std::optional<Sample> decodeCall(int index, BinaryRef& in) {
	switch (index) {
	case 0: return decodeFor(mAdd, in); case 1: return decodeFor(mRepeat, in); case 2: return decodeFor(mNote, in); case 3: return decodeFor(mNumber, in);
	case 4: return decodeFor(mEach, in); case 5: return decodeFor(mSwap, in); case 6: return decodeFor(mFail, in); case 7: return decodeFor(mMaybe, in);
	case 8: return decodeFor(mScale, in); case 9: return decodeFor(mNames, in); case 10: return decodeFor(mNot, in); case 11: return decodeFor(mStop, in);
	case 12: return decodeFor(mEcho, in);
	}
	return std::nullopt;
}
} // namespace rpczoo
#endif
