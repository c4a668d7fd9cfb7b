// C08: classes with all orders and mixes of members, written and read in named and nameless formats
#include "bomba_http.hpp"
#include "zoo.hpp"
using namespace zoo;

#define MEMBERS(NAME) \
	using S = Serialisable<NAME>; \
	template <typename F> void members(F&& f) { f("x", x); f("xy", xy); f("y", y); }

struct Partial { int32_t a = 5; char b; double c = 1.5; bool d; };
inline bool samePartial(const Partial& p) { return p.a == 77 && p.b == 'p' && p.c == 7.25 && p.d; }

// Nothing else
template <typename T, typename U, typename V>
struct Plain : Serialisable<Plain<T, U, V>> {
	MEMBERS(Plain)
	T x = S::template key<"x">;
	U xy = S::template key<"xy">;
	V y = S::template key<"y">;
	void fillGaps() {}
	bool gapsSame() const { return true; }
};
// Uninitialised members in between
template <typename T, typename U, typename V>
struct Uninitialised : Serialisable<Uninitialised<T, U, V>> {
	MEMBERS(Uninitialised)
	char g0;
	T x = S::template key<"x">;
	int32_t g1;
	U xy = S::template key<"xy">;
	double g2;
	char g3;
	V y = S::template key<"y">;
	int16_t g4;
	void fillGaps() { g0 = 'g'; g1 = 123456789; g2 = -0.125; g3 = 'h'; g4 = 4321; }
	bool gapsSame() const { return g0 == 'g' && g1 == 123456789 && g2 == -0.125 && g3 == 'h' && g4 == 4321; }
};
// Initialised members in between, with values used inside the library too
template <typename T, typename U, typename V>
struct Initialised : Serialisable<Initialised<T, U, V>> {
	MEMBERS(Initialised)
	int8_t g0 = 13;
	T x = S::template key<"x">;
	int32_t g1 = 0x0d0d0d0d;
	U xy = S::template key<"xy">;
	uint64_t g2 = 0xf3f3f3f3f3f3f3f3ull;
	int8_t g3 = -13;
	V y = S::template key<"y">;
	int16_t g4 = 0;
	void fillGaps() {}
	bool gapsSame() const { return g0 == 13 && g1 == 0x0d0d0d0d && g2 == 0xf3f3f3f3f3f3f3f3ull && g3 == -13 && g4 == 0; }
};
// Complex members in between
template <typename T, typename U, typename V>
struct Complex : Serialisable<Complex<T, U, V>> {
	MEMBERS(Complex)
	std::string g0 = "not reflected";
	T x = S::template key<"x">;
	std::vector<int> g1 = {1, 2, 3};
	bool g2;
	U xy = S::template key<"xy">;
	Partial g3;
	V y = S::template key<"y">;
	std::unique_ptr<int> g4;
	void fillGaps() { g2 = true; g3.a = 77; g3.b = 'p'; g3.c = 7.25; g3.d = true; g4 = std::make_unique<int>(9); }
	bool gapsSame() const { return g0 == "not reflected" && g1 == std::vector<int>{1, 2, 3} && g2 && samePartial(g3) && g4 && *g4 == 9; }
};
// Default values
template <typename T, typename U, typename V>
struct Defaulted : Serialisable<Defaulted<T, U, V>> {
	MEMBERS(Defaulted)
	T x = S::template key<"x">.init();
	U xy = S::template key<"xy">.init();
	int8_t g0;
	V y = S::template key<"y">.init();
	void fillGaps() { g0 = 99; }
	bool gapsSame() const { return g0 == 99; }
};

template <typename T>
T other(const T& value); // Another value of the same type
template <typename T> struct Other { static T make(int which); };
template <> struct Other<bool> { static bool make(int w) { return w == 0; } };
template <std::integral I> requires(!std::is_same_v<I, bool>) struct Other<I> { static I make(int w) { return I(w == 0 ? 0x0d : w == 1 ? 0 : w == 2 ? -13 : 100 + w); } };
template <std::floating_point F> struct Other<F> { static F make(int w) { return F(w == 0 ? 1.5 : w == 1 ? 0 : -100 - w); } };
template <> struct Other<std::string> { static std::string make(int w) { return w == 0 ? "text" : w == 1 ? "" : std::string(20, char('a' + w)); } };
template <typename T> struct Other<std::vector<T>> { static std::vector<T> make(int w) { std::vector<T> r; for (int i = 0; w != 1 && i <= w; i++) r.push_back(Other<T>::make(i + w)); return r; } };
template <typename T, size_t N> struct Other<std::array<T, N>> { static std::array<T, N> make(int w) { std::array<T, N> r; for (size_t i = 0; i < N; i++) r[i] = Other<T>::make(int(i) + w); return r; } };
template <typename T> struct Other<std::map<std::string, T>> { static std::map<std::string, T> make(int w) { std::map<std::string, T> r; if (w != 1) { r["x"] = Other<T>::make(w); r["k" + std::to_string(w)] = Other<T>::make(w + 1); } return r; } };
template <typename P> requires requires (P p) { p.reset(); *p; } struct Other<P> {
	static P make(int w) {
		using T = std::decay_t<decltype(*std::declval<P>())>;
		P r;
		if (w == 1) return r;
		if constexpr(requires { P(new T()); }) r = P(new T(Other<T>::make(w ? w : 1))); else r = Other<T>::make(w ? w : 1);
		return r;
	}
};
template <typename T> struct Other<One<T>> { static One<T> make(int w) { One<T> r; r.a = Other<T>::make(w); return r; } };
template <typename T, typename U> struct Other<Two<T, U>> { static Two<T, U> make(int w) { Two<T, U> r; r.a = Other<T>::make(w); r.b = Other<U>::make(w + 1); return r; } };

template <typename C>
Node nodeOf(C& c) {
	Node n = Node::object();
	c.members([&] (const char* name, auto& m) { n.o.emplace_back(name, Kit<std::decay_t<decltype(m)>>::node(m)); });
	return n;
}
static std::string jsonOf(const Node& n) {
	switch (n.kind) {
	case Node::Null: return "null";
	case Node::Bool: return n.b ? "true" : "false";
	case Node::Int: return intText(n.i);
	case Node::Float: return mc::fmt("%.17g", n.d);
	case Node::Str: return "\"" + n.s + "\"";
	case Node::Arr: { std::string r = "["; for (auto& it : n.a) r += (r.size() > 1 ? "," : "") + jsonOf(it); return r + "]"; }
	default: { std::string r = "{"; for (auto& it : n.o) r += (r.size() > 1 ? "," : "") + ("\"" + it.first + "\":") + jsonOf(it.second); return r + "}"; }
	}
}
template <typename C>
std::string nameOf() { return typeid(C).name(); }

// An object of any class, to keep the number of instantiated templates low
struct Object {
	virtual ~Object() = default;
	virtual void fill(const int* which) = 0;
	virtual Node node() = 0;
	virtual std::string binary() = 0; // According to an independent encoder
	virtual ISerialisable& serialisable() = 0;
	virtual bool gapsSame() = 0;
	virtual std::unique_ptr<Object> copy() = 0;
};
template <typename C>
struct ObjectOf : Object {
	C c;
	ObjectOf() { c.fillGaps(); }
	ObjectOf(const C& from) requires std::is_copy_constructible_v<C> : c(from) {}
	void fill(const int* which) override { c.members([&] (const char*, auto& m) { m = Other<std::decay_t<decltype(m)>>::make(*which++); }); }
	Node node() override { return nodeOf(c); }
	std::string binary() override { std::string r; c.members([&] (const char*, auto& m) { Kit<std::decay_t<decltype(m)>>::binary(r, m, 2); }); return r; }
	ISerialisable& serialisable() override { return c; }
	bool gapsSame() override { return c.gapsSame(); }
	std::unique_ptr<Object> copy() override {
		if constexpr(std::is_copy_constructible_v<C>) return std::make_unique<ObjectOf<C>>(c);
		else return nullptr;
	}
};
static void examine(const std::string& className, std::unique_ptr<Object>(*make)()) {
	using Json = BasicJson<>;
	using Binary = BinaryFormat<>;
	int which[16] = {};
	int count = int(make()->node().o.size());
	for (int i = 0; i < count; i++) which[i] = count <= 3 ? mc::choose(4) : (i + mc::choose(2)) % 4;
	mc::describe(className + mc::fmt(" values %d %d %d", which[0], which[1], which[2]));
	auto a = make();
	a->fill(which);
	Node expected = a->node();
	std::string expectedBinary = a->binary();
	try {
		std::string written = a->serialisable().serialise<Json>();
		Node got;
		StrictJson parser(written);
		MC_CHECK(parser.document(got) && sameNode(got, expected), "json-written", "written " + written + " instead of " + show(expected));
		std::string binary = a->serialisable().serialise<Binary>();
		MC_CHECK(binary == expectedBinary, "binary-written", "written " + mc::quoted(binary) + " instead of " + mc::quoted(expectedBinary));
		MC_CHECK(a->gapsSame() && sameNode(a->node(), expected), "writing-alters", "writing altered the object");
		mc::step(written);
		std::string json = jsonOf(expected);
		Node turned = expected;
		std::reverse(turned.o.begin(), turned.o.end());
		std::string turnedJson = jsonOf(turned);
		// Reading into fresh and filled objects
		for (int old = 0; old < 3; old++) {
			auto prepared = [&] {
				auto into = make();
				int others[16];
				for (int i = 0; i < 16; i++) others[i] = (which[i] + old) % 4;
				if (old) into->fill(others);
				return into;
			};
			auto compare = [&] (Object& into, const char* how) {
				MC_CHECK(sameNode(into.node(), expected), std::string("read:") + how, "read " + show(into.node()) + " instead of " + show(expected));
				MC_CHECK(into.gapsSame(), std::string("gaps:") + how, "members that are not reflected were altered");
			};
			{ auto into = prepared(); into->serialisable().deserialise<Json>(json); compare(*into, "json"); }
			{ auto into = prepared(); into->serialisable().deserialise<Binary>(expectedBinary); compare(*into, "binary"); }
			{ auto into = prepared(); into->serialisable().deserialise<Json>(turnedJson); compare(*into, "json reversed"); }
			// One member alone
			for (int i = 0; i < count; i++) {
				auto into = prepared();
				Node before = into->node(), part = Node::object();
				part.o.push_back(expected.o[i]);
				into->serialisable().deserialise<Json>(jsonOf(part));
				before.o[i] = expected.o[i];
				MC_CHECK(sameNode(into->node(), before), "read:alone", "reading " + jsonOf(part) + " gives " + show(into->node()) + " instead of " + show(before));
				MC_CHECK(into->gapsSame(), "gaps:alone", "members that are not reflected were altered");
			}
			if (auto copied = prepared()->copy()) { copied->serialisable().deserialise<Json>(json); compare(*copied, "copied"); }
		}
	} catch (std::exception& e) {
		mc::fail("exception", e.what());
	}
	mc::validated();
}

using Few = List<int8_t, std::string, Optional<int32_t>, double, One<int8_t>, std::map<std::string, int32_t>>;
using Many = List<bool, int8_t, int32_t, int64_t, double, std::string, std::vector<int16_t>, Optional<std::string>, Optional<int8_t>, std::unique_ptr<int32_t>, One<std::string>, std::map<std::string, bool>, std::array<int16_t, 2>, Two<int8_t, std::string>>;

#ifdef ALL
using Some = Many;
#else
using Some = List<bool, int8_t, int64_t, std::string, Optional<std::string>, Optional<int8_t>, std::unique_ptr<int32_t>, One<std::string>, std::map<std::string, bool>>;
#endif
template <typename C>
void add(const char* group) {
	mc::Register(std::string(group) + " " + nameOf<C>(), 1, [] (int) { examine(nameOf<C>(), [] () -> std::unique_ptr<Object> { return std::make_unique<ObjectOf<C>>(); }); });
}

template <template <typename, typename, typename> typename C>
void addPairs(const char* group) {
	int i = 0;
	forEach(Some(), [&] <typename T> () {
		forEach(Some(), [&] <typename U> () {
			if constexpr(true) add<C<T, U, T>>(group);
		});
	});
}
template <template <typename, typename, typename> typename C, typename First>
void addTriples(const char* group) {
	forEach(Few(), [&] <typename T> () { forEach(Few(), [&] <typename U> () { add<C<First, T, U>>(group); }); });
}
// Long classes, every member in every place
template <typename A, typename B, typename C_, typename D, typename E, typename F, typename G, typename H, typename I, typename J, typename K, typename L, typename M>
struct Long : Serialisable<Long<A, B, C_, D, E, F, G, H, I, J, K, L, M>> {
	using S = Serialisable<Long>;
	A a = S::template key<"a">;
	B b = S::template key<"b">;
	C_ c = S::template key<"c">;
	D d = S::template key<"d">;
	char g0;
	E e = S::template key<"e">;
	F f = S::template key<"">;
	G g = S::template key<"a very long name that does not fit into any small string at all">;
	H h = S::template key<"h">;
	I i = S::template key<"aa">;
	int g1;
	J j = S::template key<"A">;
	K k = S::template key<"k">;
	L l = S::template key<"l">;
	M m = S::template key<"m">;
	template <typename Fn> void members(Fn&& fn) { fn("a", a); fn("b", b); fn("c", c); fn("d", d); fn("e", e); fn("", f); fn("a very long name that does not fit into any small string at all", g); fn("h", h); fn("aa", i); fn("A", j); fn("k", k); fn("l", l); fn("m", m); }
	void fillGaps() { g0 = 'z'; g1 = -1; }
	bool gapsSame() const { return g0 == 'z' && g1 == -1; }
};
template <typename First, typename... Rest>
void addLong(List<First, Rest...>, int left) {
	if constexpr(sizeof...(Rest) == 12) add<Long<First, Rest...>>("long");
}
template <int Left, typename First, typename... Rest>
void rotate(List<First, Rest...> list) {
	addLong(list, 0);
	if constexpr(Left > 0) rotate<Left - 1>(List<Rest..., First>());
}
using Thirteen = List<bool, int8_t, int32_t, int64_t, double, std::string, std::vector<int16_t>, Optional<std::string>, std::unique_ptr<int32_t>, One<std::string>, std::map<std::string, bool>, std::array<int16_t, 2>, Two<int8_t, std::string>>;

// Default values and flags
struct WithDefaults : Serialisable<WithDefaults> {
	int32_t x = key<"x"> = 5;
	std::string xy = key<"xy"> = "default";
	Optional<int32_t> none = key<"none">;
	std::vector<int32_t> y = key<"y">.init(3, 7);
	int8_t g0 = 13;
	std::string long_ = key<"long">.init(30, 'l');
	bool z = key<"z"> = true;
	template <typename Fn> void members(Fn&& fn) { fn("x", x); fn("xy", xy); fn("none", none); fn("y", y); fn("long", long_); fn("z", z); }
	void fillGaps() {}
	bool gapsSame() const { return g0 == 13; }
};
// Nested by value, in containers and through several levels
struct Nested : Serialisable<Nested> {
	One<One<int8_t>> x = key<"x">;
	Two<One<bool>, One<bool>> xy = key<"xy">;
	std::vector<Two<int8_t, std::string>> y = key<"y">;
	template <typename Fn> void members(Fn&& fn) { fn("x", x); fn("xy", xy); fn("y", y); }
	void fillGaps() {}
	bool gapsSame() const { return true; }
};
struct Base : Serialisable<Base> { // Members of a class derived from it are not reflected
	int16_t x = key<"x">;
	int16_t y = key<"y">;
	template <typename Fn> void members(Fn&& fn) { fn("x", x); fn("y", y); }
	int16_t g0;
	void fillGaps() { g0 = 55; }
	bool gapsSame() const { return g0 == 55; }
};
struct Derived : Base {
	int16_t g5 = 66;
	bool gapsSame() const { return g0 == 55 && g5 == 66; }
};

static int added = [] {
#if PART == 0
	addPairs<Plain>("plain");
#elif PART == 1
	addPairs<Uninitialised>("uninitialised");
#elif PART == 2
	addPairs<Initialised>("initialised");
#elif PART == 3
	addPairs<Complex>("complex");
#elif PART == 4
	addTriples<Uninitialised, int8_t>("uninitialised"); addTriples<Uninitialised, Optional<int32_t>>("uninitialised");
	addTriples<Plain, double>("plain"); addTriples<Plain, std::map<std::string, int32_t>>("plain");
#ifdef ALL
	addTriples<Uninitialised, std::string>("uninitialised"); addTriples<Plain, One<int8_t>>("plain");
#endif
#elif PART == 5
	addTriples<Plain, std::string>("plain"); addTriples<Uninitialised, One<int8_t>>("uninitialised");
#ifdef ALL
	addTriples<Plain, int8_t>("plain"); addTriples<Plain, Optional<int32_t>>("plain");
	addTriples<Uninitialised, double>("uninitialised"); addTriples<Uninitialised, std::map<std::string, int32_t>>("uninitialised");
#endif
#elif PART == 6
	rotate<12>(Thirteen());
	add<Nested>("nested"); add<Base>("base"); add<Derived>("derived"); add<WithDefaults>("defaults");
	addPairs<Defaulted>("defaulted");
#endif
	return 0;
}();
#if PART == 6
static mc::Register defaults("default values", 1, [] (int) {
	WithDefaults d;
	MC_CHECK(d.x == 5 && d.xy == "default" && !d.none && d.y == std::vector<int32_t>({7, 7, 7}) && d.long_ == std::string(30, 'l') && d.z, "defaults", "default values are wrong");
	d.deserialise<BasicJson<>>(std::string("{\"x\":1}"));
	MC_CHECK(d.x == 1 && d.xy == "default" && d.y.size() == 3 && d.z, "defaults-kept", "default values were lost");
	mc::step("defaults");
	mc::validated();
});
#endif
