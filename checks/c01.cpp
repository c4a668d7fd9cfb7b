// C01: JSON round trip of every value of the domain of every type shape, into fresh and into already filled objects
#include "zoo.hpp"
using namespace zoo;

template <typename T>
std::string writeJson(const T& v) {
	std::string text;
	BasicJson<>::Output out(text);
	TypedSerialiser<T>::serialiseMember(out, v, noFlags);
	return text;
}

template <typename Buffer, typename T>
void writeJsonTo(Buffer& buffer, const T& v) {
	typename BasicJson<std::string, GeneralisedBuffer>::Output out(buffer);
	TypedSerialiser<T>::serialiseMember(out, v, noFlags);
}

template <typename T>
void readAndCompare(const std::string& text, const T& v, T& into, const char* how) {
	Exact exact(text);
	try {
		BasicJson<>::Input in(exact.view());
		TypedSerialiser<T>::deserialiseMember(in, into, noFlags);
		MC_CHECK(in.good, std::string("not-good:") + how, "reading what was written was reported as failed: " + mc::quoted(text));
		int position = in.storePosition(noFlags).loc;
		MC_CHECK(position == int(text.size()), std::string("not-consumed:") + how, mc::fmt("reading ended at %d of %zu in ", position, text.size()) + mc::quoted(text));
	} catch (std::exception& e) {
		mc::fail(std::string("exception:") + how, std::string(e.what()) + " when reading what was written: " + mc::quoted(text));
		return;
	}
	MC_CHECK(Kit<T>::same(v, into), std::string("different:") + how, "read " + show(Kit<T>::node(into)).substr(0, 300) + " from " + mc::quoted(text, 300));
	std::string again = writeJson(into);
	MC_CHECK(again == text, std::string("rewritten:") + how, "writing again gives " + mc::quoted(again, 300) + ", it was " + mc::quoted(text, 300));
	mc::step(mc::mix(mc::hash(text), mc::hash(how)));
}

template <typename T>
void roundTrip(T v, bool withOld, bool buffers) {
	std::string text = writeJson(v);
	mc::describe(Kit<T>::name() + " " + mc::quoted(text, 200));
	{
		T fresh{};
		readAndCompare(text, v, fresh, "fresh");
	}
	if (withOld) {
		T old = Kit<T>::gen(2);
		readAndCompare(text, v, old, "filled");
		readAndCompare(text, v, old, "same");
	}
	if (buffers) {
		ExpandingBuffer<16> expanding;
		writeJsonTo(expanding, v);
		MC_CHECK(std::string_view(expanding) == text, "expanding-buffer", "writing to an expanding buffer gives something else");
		std::string streamed;
		auto sink = [&] (std::span<const char> data) { streamed.append(data.data(), data.size()); };
		{
			NonOwningStreamingBuffer<7> streaming(sink);
			writeJsonTo(streaming, v);
		}
		MC_CHECK(streamed == text, "streaming-buffer", "streaming gives something else");
	}
	if constexpr(std::is_base_of_v<ISerialisable, T>) {
		MC_CHECK(v.template serialise<BasicJson<>>() == text, "serialise()", "serialise() returns something else");
		std::string into = "kept";
		v.template serialise<BasicJson<>>(into);
		MC_CHECK(into == "kept" + text, "serialise-into", "serialise() into a string writes something else");
		T second{};
		MC_CHECK(second.template deserialise<BasicJson<>>(text), "deserialise()", "deserialise() returns false");
		MC_CHECK(Kit<T>::same(v, second), "deserialise-value", "deserialise() reads something else");
	}
	mc::validated();
}

template <typename T>
void addType(const char* group) {
	mc::Register(group + Kit<T>::name(), 1, [] (int) { roundTrip<T>(Kit<T>::gen(0), true, true); });
}
static int added = [] {
	(void)0;
#if PART == 0
	forEach(Leaves(), [] <typename T> () { addType<T>("leaf "); });
	forEach(Depth1(), [] <typename T> () { addType<T>("depth1 "); });
#elif PART == 1
	forEach(Depth2(), [] <typename T> () { addType<T>("depth2 "); });
#else
	forEach(Mixed(), [] <typename T> () { addType<T>("mixed "); });
#endif
	return 0;
}();

#if PART == 2
// Entire ranges of what is small enough
static mc::Register everyInt8("all of int8_t", 1, [] (int) { roundTrip<int8_t>(int8_t(mc::choose(256)), false, false); });
static mc::Register everyUint8("all of uint8_t", 1, [] (int) { roundTrip<uint8_t>(uint8_t(mc::choose(256)), false, false); });
static mc::Register everyInt16("all of int16_t", 16, [] (int u) { roundTrip<int16_t>(int16_t(u * 4096 + mc::choose(4096)), false, false); });
static mc::Register everyUint16("all of uint16_t", 16, [] (int u) { roundTrip<uint16_t>(uint16_t(u * 4096 + mc::choose(4096)), false, false); });
static mc::Register everyByte("strings of any one byte", 1, [] (int) { roundTrip<std::string>(std::string(1, char(mc::choose(256))), false, false); });
static mc::Register everyPair("strings of any two bytes", 256, [] (int u) { roundTrip<std::string>(std::string(1, char(u)) + char(mc::choose(256)), false, false); });
static mc::Register specialStrings("strings of up to 6 special characters", 64, [] (int u) {
	static const char special[] = {'"', '\\', 'n', 'u', '\n', '\x1f', '\xc2', '\0'};
	std::string s;
	s += special[u % 8];
	s += special[u / 8];
	int more = mc::choose(mc::thorough() ? 6 : 5);
	for (int i = 0; i < more; i++) s += mc::pick(special);
	roundTrip<std::string>(s, false, false);
});
// Numbers of every binary exponent and of every decimal length
static mc::Register everyExponent("doubles of every exponent", 32, [] (int u) {
	static const uint64_t mantissas[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0x123456789abcdull};
	uint64_t exponent = u * 64 + mc::choose(64);
	if (exponent > 2046) return; // Infinite, not a number
	uint64_t bits = exponent << 52 | mc::pick(mantissas) | uint64_t(mc::choose(2)) << 63;
	double v;
	memcpy(&v, &bits, sizeof(v));
	roundTrip<double>(v, false, false);
});
static mc::Register everyFloatExponent("floats of every exponent", 1, [] (int) {
	static const uint32_t mantissas[] = {0, 1, 0x7fffff, 0x400000, 0x2aaaaa, 0x123456};
	uint32_t exponent = mc::choose(255);
	uint32_t bits = exponent << 23 | mc::pick(mantissas) | uint32_t(mc::choose(2)) << 31;
	float v;
	memcpy(&v, &bits, sizeof(v));
	roundTrip<float>(v, false, false);
});
static mc::Register decimals("doubles of every decimal length", 1, [] (int) {
	std::string digits = "12345678901234567";
	std::string text = digits.substr(0, 1 + mc::choose(17));
	text += "e" + std::to_string(mc::choose(640) - 325);
	double v = strtod(text.c_str(), nullptr);
	if (!std::isfinite(v)) return;
	roundTrip<double>(mc::choose(2) ? -v : v, false, false);
});
template <typename I>
void powers(const char* name) {
	mc::Register(name, 1, [] (int) {
		__int128 base = mc::choose(2) ? 10 : 2, v = 1;
		int n = mc::choose(64);
		for (int i = 0; i < n && v < ((__int128)1 << 65); i++) v *= base;
		v += mc::choose(3) - 1;
		if (mc::choose(2)) v = -v;
		if (v < std::numeric_limits<I>::min() || v > std::numeric_limits<I>::max()) return;
		roundTrip<I>(I(v), false, false);
	});
}
static int morePowers = (powers<int32_t>("powers int32_t"), powers<uint32_t>("powers uint32_t"), powers<int64_t>("powers int64_t"),
		powers<uint64_t>("powers uint64_t"), powers<long long>("powers long long"), powers<unsigned long>("powers unsigned long"), powers<char>("powers char"), 0);

// Reading into containers of other sizes and with other contents
template <typename V>
void refilled(const char* name, std::vector<V> all) {
	mc::Register(name, 1, [all] (int) {
		const V& from = mc::pick(all);
		V into = mc::pick(all);
		std::string text = writeJson(from);
		mc::describe("refilling " + mc::quoted(writeJson(into)) + " with " + mc::quoted(text));
		readAndCompare(text, from, into, "refilled");
		mc::validated();
	});
}
using V = std::vector<std::string>;
using M = std::map<std::string, std::vector<int32_t>>;
static int moreRefilled = (refilled<V>("refilled vector", {V{}, V{"a"}, V{"b", ""}, V{"a", "b", "c"}, V{"longer than what fits inside the string", "x", "y", "z", "zz"}}),
	refilled<M>("refilled map", {M{}, M{{"a", {1}}}, M{{"a", {}}, {"b", {2, 3}}}, M{{"b", {7, 8, 9}}}, M{{"", {1}}, {"a", {1, 2}}, {"longer than what fits inside the string", {4}}}}), 0);
template <typename T> One<T> one(T v) { One<T> r; r.a = v; return r; }
using VO = std::vector<One<Optional<std::string>>>;
static int refilledObjects = [] {
	Optional<std::string> some, none;
	some = std::string("text");
	refilled<VO>("refilled vector of objects", {VO{}, VO{one(some)}, VO{one(none), one(some)}, VO{one(some), one(some), one(none)}});
	return 0;
}();
#endif
