// Types, values and independent reference encodings shared by the serialisation checks
#ifndef ZOO_HPP
#define ZOO_HPP
#include "mc.hpp"
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <memory>
#include <cfloat>
#include <climits>
#include <cmath>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_object.hpp"
#include "bomba_binary_protocol.hpp"

namespace zoo {
using namespace Bomba;
constexpr auto noFlags = SerialisationFlags::NONE;

// What a value means, independently of the way it is written
struct Node {
	enum Kind { Null, Bool, Int, Float, Str, Arr, Obj } kind = Null;
	bool reflected = false; // An object whose members are given by its type
	bool b = false;
	__int128 i = 0;
	double d = 0;
	std::string s;
	std::vector<Node> a;
	std::vector<std::pair<std::string, Node>> o;
	static Node null() { return {}; }
	static Node boolean(bool v) { Node n; n.kind = Bool; n.b = v; return n; }
	static Node integer(__int128 v) { Node n; n.kind = Int; n.i = v; return n; }
	static Node floating(double v) { Node n; n.kind = Float; n.d = v; return n; }
	static Node string(std::string v) { Node n; n.kind = Str; n.s = std::move(v); return n; }
	static Node array() { Node n; n.kind = Arr; return n; }
	static Node object() { Node n; n.kind = Obj; return n; }
	const Node* find(std::string_view name) const {
		for (auto& it : o) if (it.first == name) return &it.second;
		return nullptr;
	}
};

inline std::string intText(__int128 v) {
	if (v == 0) return "0";
	bool negative = v < 0;
	std::string r;
	while (v != 0) { int digit = int(v % 10); r += char('0' + (digit < 0 ? -digit : digit)); v /= 10; }
	if (negative) r += '-';
	std::reverse(r.begin(), r.end());
	return r;
}
inline bool sameDouble(double a, double b) { return memcmp(&a, &b, sizeof(a)) == 0; }

// Numbers may be written in any way that means the same
inline bool sameNode(const Node& a, const Node& b) {
	if (a.kind == Node::Int && b.kind == Node::Float) return (double)a.i == b.d && (__int128)b.d == a.i;
	if (a.kind == Node::Float && b.kind == Node::Int) return sameNode(b, a);
	if (a.kind != b.kind) return false;
	switch (a.kind) {
	case Node::Null: return true;
	case Node::Bool: return a.b == b.b;
	case Node::Int: return a.i == b.i;
	case Node::Float: return a.d == b.d;
	case Node::Str: return a.s == b.s;
	case Node::Arr:
		if (a.a.size() != b.a.size()) return false;
		for (size_t i = 0; i < a.a.size(); i++) if (!sameNode(a.a[i], b.a[i])) return false;
		return true;
	case Node::Obj:
		if (a.o.size() != b.o.size()) return false;
		for (size_t i = 0; i < a.o.size(); i++)
			if (a.o[i].first != b.o[i].first || !sameNode(a.o[i].second, b.o[i].second)) return false;
		return true;
	}
	return false;
}
inline std::string show(const Node& n) {
	switch (n.kind) {
	case Node::Null: return "null";
	case Node::Bool: return n.b ? "true" : "false";
	case Node::Int: return intText(n.i);
	case Node::Float: return mc::fmt("%.17gf", n.d);
	case Node::Str: return mc::quoted(n.s, 40);
	case Node::Arr: { std::string r = "["; for (auto& it : n.a) r += (r.size() > 1 ? "," : "") + show(it); return r + "]"; }
	case Node::Obj: { std::string r = "{"; for (auto& it : n.o) r += (r.size() > 1 ? "," : "") + mc::quoted(it.first, 20) + ":" + show(it.second); return r + "}"; }
	}
	return "?";
}

// A strict parser of RFC 8259, written without regard to the code under test
struct StrictJson {
	std::string_view t;
	size_t p = 0;
	std::string error;
	StrictJson(std::string_view t) : t(t) {}
	bool no(const char* why) { if (error.empty()) error = mc::fmt("%s at %zu", why, p); return false; }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
	bool literal(const char* word) {
		size_t n = strlen(word);
		if (t.substr(p, n) != word) return no("bad literal");
		p += n;
		return true;
	}
	static void utf8(std::string& out, uint32_t c) {
		if (c < 0x80) out += char(c);
		else if (c < 0x800) { out += char(0xc0 | c >> 6); out += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { out += char(0xe0 | c >> 12); out += char(0x80 | ((c >> 6) & 63)); out += char(0x80 | (c & 63)); }
		else { out += char(0xf0 | c >> 18); out += char(0x80 | ((c >> 12) & 63)); out += char(0x80 | ((c >> 6) & 63)); out += char(0x80 | (c & 63)); }
	}
	bool hex4(uint32_t& v) {
		if (p + 4 > t.size()) return no("short escape");
		v = 0;
		for (int i = 0; i < 4; i++) {
			char c = t[p++];
			int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
			if (d < 0) return no("bad hex digit");
			v = v * 16 + d;
		}
		return true;
	}
	bool string(std::string& out) {
		if (p >= t.size() || t[p] != '"') return no("expected a string");
		p++;
		while (true) {
			if (p >= t.size()) return no("unterminated string");
			unsigned char c = t[p++];
			if (c == '"') return true;
			if (c < 0x20) return no("control character in a string");
			if (c != '\\') { out += char(c); continue; }
			if (p >= t.size()) return no("unterminated escape");
			char e = t[p++];
			switch (e) {
			case '"': out += '"'; break;
			case '\\': out += '\\'; break;
			case '/': out += '/'; break;
			case 'b': out += '\b'; break;
			case 'f': out += '\f'; break;
			case 'n': out += '\n'; break;
			case 'r': out += '\r'; break;
			case 't': out += '\t'; break;
			case 'u': {
				uint32_t v, w;
				if (!hex4(v)) return false;
				if (v >= 0xd800 && v < 0xdc00) {
					if (t.substr(p, 2) != "\\u") return no("lone surrogate");
					p += 2;
					if (!hex4(w)) return false;
					if (w < 0xdc00 || w >= 0xe000) return no("bad surrogate pair");
					v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
				} else if (v >= 0xdc00 && v < 0xe000) return no("lone surrogate");
				utf8(out, v);
				break;
			}
			default: return no("bad escape");
			}
		}
	}
	bool number(Node& n) {
		size_t start = p;
		auto digit = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
		bool whole = true;
		if (p < t.size() && t[p] == '-') p++;
		if (!digit()) return no("expected a digit");
		if (t[p] == '0') p++; else while (digit()) p++;
		if (p < t.size() && t[p] == '.') {
			whole = false;
			p++;
			if (!digit()) return no("expected a decimal digit");
			while (digit()) p++;
		}
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
			whole = false;
			p++;
			if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
			if (!digit()) return no("expected an exponent");
			while (digit()) p++;
		}
		std::string text(t.substr(start, p - start));
		if (whole && text.size() < 30 && text != "-0") {
			__int128 v = 0;
			for (char c : text) if (c != '-') v = v * 10 + (c - '0');
			n = Node::integer(text[0] == '-' ? -v : v);
			n.d = strtod(text.c_str(), nullptr);
		} else
			n = Node::floating(strtod(text.c_str(), nullptr));
		n.s = text;
		return true;
	}
	bool value(Node& n, int depth = 0) {
		if (depth > 200) return no("too deep");
		ws();
		if (p >= t.size()) return no("expected a value");
		char c = t[p];
		if (c == '{') {
			p++;
			n = Node::object();
			ws();
			if (p < t.size() && t[p] == '}') { p++; return true; }
			while (true) {
				ws();
				std::string name;
				if (!string(name)) return false;
				ws();
				if (p >= t.size() || t[p] != ':') return no("expected a colon");
				p++;
				n.o.emplace_back(std::move(name), Node());
				if (!value(n.o.back().second, depth + 1)) return false;
				ws();
				if (p < t.size() && t[p] == ',') { p++; continue; }
				if (p < t.size() && t[p] == '}') { p++; return true; }
				return no("expected a comma or the end of the object");
			}
		}
		if (c == '[') {
			p++;
			n = Node::array();
			ws();
			if (p < t.size() && t[p] == ']') { p++; return true; }
			while (true) {
				n.a.emplace_back();
				if (!value(n.a.back(), depth + 1)) return false;
				ws();
				if (p < t.size() && t[p] == ',') { p++; continue; }
				if (p < t.size() && t[p] == ']') { p++; return true; }
				return no("expected a comma or the end of the array");
			}
		}
		if (c == '"') { n = Node::string(""); return string(n.s); }
		if (c == 't') { n = Node::boolean(true); return literal("true"); }
		if (c == 'f') { n = Node::boolean(false); return literal("false"); }
		if (c == 'n') { n = Node::null(); return literal("null"); }
		return number(n);
	}
	bool document(Node& n) {
		if (!value(n)) return false;
		ws();
		if (p != t.size()) return no("something after the document");
		return true;
	}
};

// Reflected types
template <typename T>
struct One : Serialisable<One<T>> {
	using S = Serialisable<One<T>>;
	using M1 = T;
	T a = S::template key<"a">;
};
template <typename T, typename U>
struct Two : Serialisable<Two<T, U>> {
	using S = Serialisable<Two<T, U>>;
	T a = S::template key<"a">;
	U b = S::template key<"b">;
};
template <typename T, typename U, typename V>
struct Three : Serialisable<Three<T, U, V>> {
	using S = Serialisable<Three<T, U, V>>;
	T first = S::template key<"first">;
	U second = S::template key<"second">;
	V first2 = S::template key<"first2">; // The name begins with another one's name
};

// All operations on a type of value
template <typename T> struct Kit;

inline int levelled(int level, std::initializer_list<int> counts) {
	return level < int(counts.size()) ? counts.begin()[level] : 1;
}

template <typename T>
void putLE(std::string& out, T value) {
	uint64_t v = uint64_t(value);
	for (size_t i = 0; i < sizeof(T); i++) out += char(v >> (8 * i));
}
inline void putSize(std::string& out, size_t size, int width) {
	for (int i = 0; i < width; i++) out += char(i < 8 ? uint64_t(size) >> (8 * i) : 0);
}

template <> struct Kit<bool> {
	static std::string name() { return "bool"; }
	static bool gen(int level) { return level > 3 ? true : mc::choose(2) == 0; }
	static bool same(bool a, bool b) { return a == b; }
	static Node node(bool v) { return Node::boolean(v); }
	static void binary(std::string& out, bool v, int) { out += char(v); }
};

template <std::integral I> requires (!std::is_same_v<I, bool>)
struct Kit<I> {
	using L = std::numeric_limits<I>;
	static std::string name() { return mc::fmt("%s%d", std::is_signed_v<I> ? "int" : "uint", int(sizeof(I) * 8)); }
	static const std::vector<I>& domain() {
		static std::vector<I> all = [] {
			std::vector<I> r;
			for (__int128 v : {(__int128)5, (__int128)L::min(), (__int128)L::max(), (__int128)0, (__int128)-1, (__int128)1, (__int128)L::min() + 1, (__int128)L::max() - 1, (__int128)9, (__int128)10, (__int128)-10,
					(__int128)99, (__int128)100, (__int128)126, (__int128)127, (__int128)128, (__int128)129, (__int128)-127, (__int128)-128, (__int128)-129, (__int128)255, (__int128)256, (__int128)257, (__int128)32767, (__int128)32768, (__int128)-32768, (__int128)-32769, (__int128)65535, (__int128)65536,
					(__int128)2147483647, (__int128)2147483648ll, (__int128)-2147483648ll, (__int128)-2147483649ll, (__int128)4294967295ll, (__int128)4294967296ll, (__int128)9007199254740993ll,
					(__int128)999999999999999999ll, (__int128)1000000000000000000ll, (__int128)9223372036854775807ll, (__int128)-9223372036854775807ll, ((__int128)1 << 63), ((__int128)1 << 63) + 1})
				if (v >= L::min() && v <= L::max() && std::find(r.begin(), r.end(), I(v)) == r.end()) r.push_back(I(v));
			return r;
		}();
		return all;
	}
	static I gen(int level) {
		auto& d = domain();
		return d[mc::choose(std::min<int>(d.size(), levelled(level, {1000, 5, 3, 2})))];
	}
	static bool same(I a, I b) { return a == b; }
	static Node node(I v) { return Node::integer(v); }
	static void binary(std::string& out, I v, int) { putLE(out, v); }
};

template <std::floating_point F>
struct Kit<F> {
	using L = std::numeric_limits<F>;
	static std::string name() { return sizeof(F) == 4 ? "float" : "double"; }
	static const std::vector<F>& domain() {
		static std::vector<F> all = {F(1.5), F(-1.2345678901234567e-308) == 0 ? -L::min() : F(-1.2345678901234567e-308), L::max(), F(0), -L::max(), F(0.1), L::min(), L::denorm_min(), F(-0.0),
				F(1) / 3, F(1e22), F(1e23), F(123456789.123456789), F(1e-5), F(1e-4), F(123456), F(1e15), F(1e16), F(1e17), F(1e21), F(4503599627370497.5), F(16777217),
				F(-1), F(100), F(-273.15), L::epsilon(), F(65504), F(65520), F(1e-7), F(2147483648.0), F(-9223372036854775808.0), F(18446744073709551616.0)};
		return all;
	}
	static F gen(int level) {
		auto& d = domain();
		return d[mc::choose(std::min<int>(d.size(), levelled(level, {1000, 4, 3, 2})))];
	}
	static bool same(F a, F b) { return memcmp(&a, &b, sizeof(a)) == 0; }
	static Node node(F v) { return Node::floating(double(v)); }
	static void binary(std::string& out, F v, int) {
		if constexpr(sizeof(F) == 4) { uint32_t u; memcpy(&u, &v, 4); putLE(out, u); }
		else { uint64_t u; memcpy(&u, &v, 8); putLE(out, u); }
	}
};

inline bool onlyValidUtf8 = false; // Restricts the domain of strings
inline bool validUtf8(std::string_view s) {
	for (size_t i = 0; i < s.size(); ) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0 || i + n >= s.size()) return false;
		for (int j = 1; j <= n; j++) if ((s[i + j] & 0xc0) != 0x80) return false;
		unsigned char d = n ? s[i + 1] : 0;
		if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) return false;
		i += n + 1;
	}
	return true;
}
inline const std::vector<std::string>& stringDomain() {
	auto make = [] (bool valid) {
		using namespace std::string_literals;
		std::vector<std::string> r = {"", "\"\\\n"s, "a", "null", "}],{[\":"s, "\0x"s, "\r\n\t\b\f\x01\x1f\x7f"s, "\\\"\\\\"s, "\\u0041\\n"s, "ž€😀"s, "\xc2\x80\xdf\xbf\xe0\xa0\x80\xef\xbf\xbf\xf0\x90\x80\x80\xf4\x8f\xbf\xbf"s,
				"/path//x"s, "<&>'&#300;%26+=?", " ", "  lead and trail ", "0", "-1", "true", "\\", "\"", "\n", "x\\", std::string(255, 'l'), std::string(256, 'm'), std::string(1023, 'n') + "\"", std::string(1024, 'o'), std::string(1025, '\\'),
				std::string(3100, 'q')};
		if (!valid) { r.push_back("\xff"s); r.push_back("\x80\xc3("s); r.push_back("\xed\xa0\x80"s); r.push_back("abc\xf0"s); }
		return r;
	};
	static std::vector<std::string> valid = make(true), any = make(false);
	return onlyValidUtf8 ? valid : any;
}
template <> struct Kit<std::string> {
	static std::string name() { return "string"; }
	static std::string gen(int level) {
		auto& d = stringDomain();
		return d[mc::choose(std::min<int>(d.size(), levelled(level, {1000, 5, 3, 2})))];
	}
	static bool same(const std::string& a, const std::string& b) { return a == b; }
	static Node node(const std::string& v) { return Node::string(v); }
	static void binary(std::string& out, const std::string& v, int w) { putSize(out, v.size(), w); out += v; }
};

template <typename T> struct Kit<std::vector<T>> {
	static std::string name() { return "vector<" + Kit<T>::name() + ">"; }
	static std::vector<T> gen(int level) {
		std::vector<T> r;
		int n = mc::choose(levelled(level, {3, 3, 3, 2}));
		static constexpr int order[] = {2, 0, 1};
		n = levelled(level, {3, 3, 3, 2}) == 2 ? (n ? 0 : 1) : order[n];
		for (int i = 0; i < n; i++) r.push_back(Kit<T>::gen(level + 1 + (i > 0)));
		return r;
	}
	static bool same(const std::vector<T>& a, const std::vector<T>& b) {
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); i++) if (!Kit<T>::same(a[i], b[i])) return false;
		return true;
	}
	static Node node(const std::vector<T>& v) { Node n = Node::array(); for (auto& it : v) n.a.push_back(Kit<T>::node(it)); return n; }
	static void binary(std::string& out, const std::vector<T>& v, int w) { putSize(out, v.size(), w); for (auto& it : v) Kit<T>::binary(out, it, w); }
};
template <typename T, size_t N> struct Kit<std::array<T, N>> {
	static std::string name() { return mc::fmt("array<%s,%zu>", Kit<T>::name().c_str(), N); }
	static std::array<T, N> gen(int level) {
		std::array<T, N> r = {};
		for (size_t i = 0; i < N; i++) r[i] = Kit<T>::gen(level + 1 + (i > 0));
		return r;
	}
	static bool same(const std::array<T, N>& a, const std::array<T, N>& b) {
		for (size_t i = 0; i < N; i++) if (!Kit<T>::same(a[i], b[i])) return false;
		return true;
	}
	static Node node(const std::array<T, N>& v) { Node n = Node::array(); for (auto& it : v) n.a.push_back(Kit<T>::node(it)); return n; }
	static void binary(std::string& out, const std::array<T, N>& v, int w) { putSize(out, N, w); for (auto& it : v) Kit<T>::binary(out, it, w); }
};
template <typename T> struct Kit<std::map<std::string, T>> {
	using Type = std::map<std::string, T>;
	static std::string name() { return "map<" + Kit<T>::name() + ">"; }
	static Type gen(int level) {
		Type r;
		int kind = mc::choose(levelled(level, {5, 4, 3, 2}));
		auto add = [&] (const char* key, int more) { r.emplace(std::string(key), Kit<T>::gen(level + 1 + more)); };
		if (kind == 0) { add("a", 0); add("b\"\n", 1); }
		if (kind == 2) add("", 0);
		if (kind == 3) { add("x", 0); }
		if (kind == 4) { add("key long enough to be allocated outside the string", 0); add("a", 1); add("a0", 2); }
		return r;
	}
	static bool same(const Type& a, const Type& b) {
		if (a.size() != b.size()) return false;
		for (auto i = a.begin(), j = b.begin(); i != a.end(); i++, j++) if (i->first != j->first || !Kit<T>::same(i->second, j->second)) return false;
		return true;
	}
	static Node node(const Type& v) { Node n = Node::object(); for (auto& it : v) n.o.emplace_back(it.first, Kit<T>::node(it.second)); return n; }
	static void binary(std::string& out, const Type& v, int w) {
		putSize(out, v.size(), w);
		for (auto& it : v) { putSize(out, it.first.size(), w); out += it.first; Kit<T>::binary(out, it.second, w); }
	}
};
template <typename P> struct PointerKit {
	using T = std::decay_t<decltype(*std::declval<P>())>;
	static bool same(const P& a, const P& b) {
		if (bool(a) != bool(b)) return false;
		return !a || Kit<T>::same(*a, *b);
	}
	static Node node(const P& v) { return v ? Kit<T>::node(*v) : Node::null(); }
	static void binary(std::string& out, const P& v, int w) { out += char(bool(v)); if (v) Kit<T>::binary(out, *v, w); }
	static P gen(int level) {
		P r;
		if (mc::choose(levelled(level, {2, 2, 2, 2})) == 0) {
			if constexpr(requires { P(new T()); }) r = P(new T(Kit<T>::gen(level + 1)));
			else r = Kit<T>::gen(level + 1);
		}
		return r;
	}
};
template <typename T> struct Kit<Optional<T>> : PointerKit<Optional<T>> { static std::string name() { return "optional<" + Kit<T>::name() + ">"; } };
template <typename T> struct Kit<std::unique_ptr<T>> : PointerKit<std::unique_ptr<T>> { static std::string name() { return "unique_ptr<" + Kit<T>::name() + ">"; } };
template <typename T> struct Kit<std::shared_ptr<T>> : PointerKit<std::shared_ptr<T>> { static std::string name() { return "shared_ptr<" + Kit<T>::name() + ">"; } };

template <typename T> struct Kit<One<T>> {
	static std::string name() { return "One<" + Kit<T>::name() + ">"; }
	static One<T> gen(int level) { One<T> r; r.a = Kit<T>::gen(level + 1); return r; }
	static bool same(const One<T>& a, const One<T>& b) { return Kit<T>::same(a.a, b.a); }
	static Node node(const One<T>& v) { Node n = Node::object(); n.reflected = true; n.o.emplace_back("a", Kit<T>::node(v.a)); return n; }
	static void binary(std::string& out, const One<T>& v, int w) { Kit<T>::binary(out, v.a, w); }
};
template <typename T, typename U> struct Kit<Two<T, U>> {
	using Type = Two<T, U>;
	static std::string name() { return "Two<" + Kit<T>::name() + "," + Kit<U>::name() + ">"; }
	static Type gen(int level) { Type r; r.a = Kit<T>::gen(level + 1); r.b = Kit<U>::gen(level + 1); return r; }
	static bool same(const Type& a, const Type& b) { return Kit<T>::same(a.a, b.a) && Kit<U>::same(a.b, b.b); }
	static Node node(const Type& v) { Node n = Node::object(); n.reflected = true; n.o.emplace_back("a", Kit<T>::node(v.a)); n.o.emplace_back("b", Kit<U>::node(v.b)); return n; }
	static void binary(std::string& out, const Type& v, int w) { Kit<T>::binary(out, v.a, w); Kit<U>::binary(out, v.b, w); }
};
template <typename T, typename U, typename V> struct Kit<Three<T, U, V>> {
	using Type = Three<T, U, V>;
	static std::string name() { return "Three<" + Kit<T>::name() + "," + Kit<U>::name() + "," + Kit<V>::name() + ">"; }
	static Type gen(int level) { Type r; r.first = Kit<T>::gen(level + 1); r.second = Kit<U>::gen(level + 2); r.first2 = Kit<V>::gen(level + 2); return r; }
	static bool same(const Type& a, const Type& b) { return Kit<T>::same(a.first, b.first) && Kit<U>::same(a.second, b.second) && Kit<V>::same(a.first2, b.first2); }
	static Node node(const Type& v) {
		Node n = Node::object();
		n.reflected = true;
		n.o.emplace_back("first", Kit<T>::node(v.first)); n.o.emplace_back("second", Kit<U>::node(v.second)); n.o.emplace_back("first2", Kit<V>::node(v.first2));
		return n;
	}
	static void binary(std::string& out, const Type& v, int w) { Kit<T>::binary(out, v.first, w); Kit<U>::binary(out, v.second, w); Kit<V>::binary(out, v.first2, w); }
};

template <typename... Ts> struct List {};
template <typename... A, typename... B> List<A..., B...> concat(List<A...>, List<B...>);
template <typename A, typename B> using Concat = decltype(concat(A(), B()));

using Leaves = List<bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double, std::string>;
template <typename T> using Wrapped = List<std::vector<T>, std::array<T, 2>, std::map<std::string, T>, Optional<T>, std::unique_ptr<T>, std::shared_ptr<T>, One<T>>;
// std::vector<bool> has no elements that could be referenced
template <> struct Kit<std::vector<bool>>;
using WrappedBool = List<std::array<bool, 2>, std::map<std::string, bool>, Optional<bool>, std::unique_ptr<bool>, std::shared_ptr<bool>, One<bool>>;
using Depth1 = Concat<Concat<Concat<WrappedBool, Wrapped<int8_t>>, Concat<Wrapped<uint64_t>, Wrapped<int32_t>>>, Concat<Wrapped<double>, Concat<Wrapped<std::string>, Wrapped<float>>>>;
template <typename T> using WrappedOwned = List<std::vector<T>, std::array<T, 2>, std::map<std::string, T>, Optional<T>, std::unique_ptr<T>, One<T>>;
// A null inside a null would be ambiguous in JSON, so pointers do not point to pointers
template <typename T> using WrappedPointer = List<std::vector<T>, std::array<T, 2>, std::map<std::string, T>, One<T>>;
template <typename T> using Depth2Of = Concat<Concat<WrappedOwned<std::vector<T>>, WrappedOwned<std::array<T, 2>>>,
		Concat<WrappedOwned<std::map<std::string, T>>, Concat<WrappedOwned<One<T>>, WrappedPointer<Optional<T>>>>>;
using Depth2 = Concat<Depth2Of<std::string>, Depth2Of<int16_t>>;
using Mixed = List<Two<int32_t, bool>, Two<std::string, std::string>, Two<double, uint64_t>, Two<int64_t, Optional<std::string>>, Two<One<int32_t>, One<std::string>>, Two<bool, std::vector<std::string>>,
		Three<int32_t, std::string, bool>, Three<Optional<int32_t>, std::vector<int8_t>, std::string>, Three<std::map<std::string, int32_t>, bool, One<bool>>, Three<bool, bool, bool>,
		Three<std::string, Two<std::string, int8_t>, std::unique_ptr<One<std::string>>>, std::vector<Two<std::string, int32_t>>, std::map<std::string, Two<bool, float>>,
		One<One<One<int32_t>>>, One<std::vector<One<std::vector<One<int8_t>>>>>, std::vector<std::vector<std::vector<int32_t>>>, std::map<std::string, std::map<std::string, std::map<std::string, bool>>>,
		std::shared_ptr<Two<std::shared_ptr<std::string>, std::unique_ptr<double>>>, std::array<std::vector<std::map<std::string, Optional<int32_t>>>, 2>>;

template <typename F, typename... Ts>
void forEach(List<Ts...>, F&& f) { (f.template operator()<Ts>(), ...); }

inline bool documentedError(const std::exception& e) {
	return dynamic_cast<const ParseError*>(&e) || dynamic_cast<const RemoteError*>(&e) || dynamic_cast<const MethodNotFoundError*>(&e)
			|| typeid(e) == typeid(std::logic_error);
}

// Exactly sized copy on the heap, reading behind it is detected
struct Exact {
	char* data;
	size_t size;
	explicit Exact(std::string_view s) : data(static_cast<char*>(malloc(s.size() ? s.size() : 1))), size(s.size()) {
		memcpy(data, s.data(), s.size());
	}
	~Exact() { free(data); }
	Exact(const Exact&) = delete;
	std::string_view view() const { return {size ? data : data + 1, size}; }
	std::span<char> span() const { return {size ? data : data + 1, size}; }
};

} // namespace zoo
#endif
