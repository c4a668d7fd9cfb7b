// C05: binary round trip and layout, against an independent encoder
#include "zoo.hpp"
using namespace zoo;

static bool sizesFit(const Node& n, uint64_t limit) {
	if (n.kind == Node::Str) return n.s.size() <= limit;
	if (n.kind == Node::Arr) {
		if (n.a.size() > limit) return false;
		for (auto& it : n.a) if (!sizesFit(it, limit)) return false;
	}
	if (n.kind == Node::Obj) {
		if (!n.reflected && n.o.size() > limit) return false;
		for (auto& [name, it] : n.o) if ((!n.reflected && name.size() > limit) || !sizesFit(it, limit)) return false;
	}
	return true;
}

template <typename SizeType, typename T>
void binaryRoundTrip(const T& v, bool withOld, bool buffers) {
	using Format = BinaryFormat<std::string, SizeType>;
	std::string sizeName = mc::fmt("size%zu", sizeof(SizeType));
	std::string expected, written;
	Kit<T>::binary(expected, v, sizeof(SizeType));
	mc::describe(Kit<T>::name() + " " + sizeName + " " + mc::quoted(expected, 100));
	bool fits = sizesFit(Kit<T>::node(v), std::numeric_limits<SizeType>::max());
	try {
		typename Format::Output out(written);
		TypedSerialiser<T>::serialiseMember(out, v, noFlags);
	} catch (std::logic_error& e) {
		MC_CHECK(!fits, "refused", std::string("writing was refused: ") + e.what());
		mc::step(mc::hash("refused"));
		mc::validated();
		return;
	}
	MC_CHECK(fits, "not-refused", "a size that does not fit was written");
	MC_CHECK(written == expected, "layout", "written " + mc::quoted(written, 200) + ", expected " + mc::quoted(expected, 200));
	if (!fits) return;
	auto read = [&] (T& into, std::string_view text, const char* how) {
		Exact exact(text);
		try {
			typename Format::Input in(exact.view());
			TypedSerialiser<T>::deserialiseMember(in, into, noFlags);
			MC_CHECK(in.good, std::string("not-good:") + how, "reading was reported as failed");
			MC_CHECK(in.position() == int(expected.size()), std::string("consumed:") + how, mc::fmt("%d of %zu bytes were consumed", in.position(), expected.size()));
			MC_CHECK(in.storePosition(noFlags).loc == int(expected.size()), std::string("position:") + how, "storePosition() is something else");
			if (std::string_view(how) == "repeated") { // Once more from where it ended
				T second{};
				TypedSerialiser<T>::deserialiseMember(in, second, noFlags);
				MC_CHECK(in.position() == int(text.size()), std::string("consumed-second:") + how, "the second value was not consumed");
				MC_CHECK(Kit<T>::same(v, second), std::string("second:") + how, "the second value is " + show(Kit<T>::node(second)).substr(0, 200));
			}
		} catch (std::exception& e) {
			mc::fail(std::string("exception:") + how, e.what());
			return;
		}
		MC_CHECK(Kit<T>::same(v, into), std::string("different:") + how, "read " + show(Kit<T>::node(into)).substr(0, 200) + " instead of " + show(Kit<T>::node(v)).substr(0, 200));
		mc::step(mc::mix(mc::hash(text), mc::hash(how)));
	};
	T fresh{};
	read(fresh, written, "fresh");
	read(fresh, written + written, "repeated");
	read(fresh, written + "\x01\x02", "followed");
	if (withOld) {
		T old = Kit<T>::gen(2);
		read(old, written, "filled");
	}
	if (buffers) {
		ExpandingBuffer<16> buffer;
		typename BinaryFormat<ExpandingBuffer<16>, SizeType>::Output out(buffer);
		TypedSerialiser<T>::serialiseMember(out, v, noFlags);
		MC_CHECK(std::string_view(buffer) == expected, "expanding-buffer", "writing into an expanding buffer gives something else");
	}
	if constexpr(std::is_base_of_v<ISerialisable, T>) {
		T mutableCopy = [&] { T c{}; Exact exact(written); typename Format::Input in(exact.view()); TypedSerialiser<T>::deserialiseMember(in, c, noFlags); return c; }();
		MC_CHECK(mutableCopy.template serialise<Format>() == expected, "serialise()", "serialise() gives something else");
		T third{};
		MC_CHECK(third.template deserialise<Format>(written), "deserialise()", "deserialise() returns false");
		MC_CHECK(Kit<T>::same(v, third), "deserialise-value", "deserialise() reads something else");
	}
	mc::validated();
}

template <typename T>
void addType(const char* group) {
	mc::Register(group + Kit<T>::name(), 3, [] (int u) {
		if (u == 0) binaryRoundTrip<uint16_t, T>(Kit<T>::gen(0), true, true);
		else if (u == 1) binaryRoundTrip<uint8_t, T>(Kit<T>::gen(0), false, false);
		else binaryRoundTrip<uint32_t, T>(Kit<T>::gen(1), false, false);
	});
}
static int added = [] {
	(void)0;
#if PART == 0
	forEach(Leaves(), [] <typename T> () { addType<T>("leaf "); });
	forEach(Depth1(), [] <typename T> () { addType<T>("depth1 "); });
#elif PART == 1
	forEach(Depth2(), [] <typename T> () { addType<T>("depth2 "); });
#elif PART == 2
	forEach(Mixed(), [] <typename T> () { addType<T>("mixed "); });
#endif
	return 0;
}();

#if PART == 2
static mc::Register sizes("sizes around limits", 1, [] (int) {
	static const size_t counts[] = {0, 1, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072};
	size_t count = mc::pick(counts);
	int what = mc::choose(5);
	auto all = [&] (auto v) {
		switch (mc::choose(4)) {
		case 0: binaryRoundTrip<uint8_t>(v, false, true); break;
		case 1: binaryRoundTrip<uint16_t>(v, false, true); break;
		case 2: binaryRoundTrip<uint32_t>(v, false, true); break;
		case 3: binaryRoundTrip<int16_t>(v, false, true); break;
		}
	};
	if (what == 0) all(std::string(count, 's'));
	if (what == 1) all(std::vector<int8_t>(count, int8_t(5)));
	if (what == 2) { if (count > 70000) return; std::map<std::string, bool> map; for (size_t i = 0; i < count; i++) map[std::to_string(i)] = i & 1; all(map); }
	if (what == 3) all(std::map<std::string, bool>{{std::string(count, 'k'), true}});
	if (what == 4) { Two<std::string, std::vector<std::string>> two; two.a = "before"; two.b.push_back(std::string(count, 'v')); two.b.push_back("after"); Two<std::string, std::vector<std::string>> copy = two; all(std::move(copy)); }
});
// Sizes that are not possible in memory, the text is not read and what is written is only counted
#include <sys/mman.h>
struct Counting {
	uint64_t size = 0;
	std::string start;
	Counting& operator+=(char c) { return *this += std::string_view(&c, 1); }
	Counting& operator+=(std::string_view s) {
		if (start.size() < 16) start += s.substr(0, 16 - start.size());
		size += s.size();
		return *this;
	}
};
template <typename SizeType> void enormousText(uint64_t size, const char* data, bool expected) {
	Counting output;
	bool refused = false;
	try {
		typename BinaryFormat<Counting, SizeType>::Output writer(output);
		writer.writeString(SerialisationFlags::NONE, std::string_view(data, size));
	} catch (std::exception&) { refused = true; }
	MC_CHECK(refused == !expected, "enormous:refused", expected ? "a text whose size fits is refused" : mc::fmt("a text whose size does not fit is written as %llu bytes", (unsigned long long)output.size));
	if (!expected || mc::failed()) return;
	std::string prefix;
	for (size_t i = 0; i < sizeof(SizeType); i++) prefix += char(size >> (8 * i));
	MC_CHECK(output.size == size + sizeof(SizeType) && output.start.starts_with(prefix), "enormous:layout", mc::fmt("%llu bytes are written beginning with ", (unsigned long long)output.size) + mc::quoted(output.start));
}
static mc::Register enormous("texts of sizes around 2^31 and 2^32", 1, [] (int) {
	static const uint64_t counts[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 200, (1ull << 33) + 5};
	uint64_t size = mc::pick(counts);
	int kind = mc::choose(6);
	static const char* const names[] = {"uint8_t", "uint16_t", "uint32_t", "int8_t", "int16_t", "int32_t"};
	mc::describe(mc::fmt("a text of %llu bytes with a size prefix of ", (unsigned long long)size) + names[kind]);
	void* mapped = mmap(nullptr, size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mapped == MAP_FAILED) { mc::count("not enough memory"); return; }
	const char* data = static_cast<const char*>(mapped);
	switch (kind) {
	case 0: enormousText<uint8_t>(size, data, false); break;
	case 1: enormousText<uint16_t>(size, data, false); break;
	case 2: enormousText<uint32_t>(size, data, size <= UINT32_MAX); break;
	case 3: enormousText<int8_t>(size, data, false); break;
	case 4: enormousText<int16_t>(size, data, false); break;
	case 5: enormousText<int32_t>(size, data, size <= INT32_MAX); break;
	}
	munmap(mapped, size);
	mc::step(mc::fmt("%d %llu", kind, (unsigned long long)size));
	mc::validated();
});
static mc::Register unknownSizes("arrays and objects of unknown size", 1, [] (int) {
	int kind = mc::choose(4);
	bool object = mc::choose(2);
	mc::describe(mc::fmt("%s, prefix %d", object ? "object" : "array", kind));
	std::string output;
	auto attempt = [&] <typename SizeType> (SizeType) {
		typename BinaryFormat<std::string, SizeType>::Output writer(output);
		if (object) writer.startWritingObject(SerialisationFlags::NONE, IStructuredOutput::UNKNOWN_SIZE);
		else writer.startWritingArray(SerialisationFlags::NONE, IStructuredOutput::UNKNOWN_SIZE);
	};
	bool refused = false;
	try {
		if (kind == 0) attempt(uint8_t());
		if (kind == 1) attempt(uint16_t());
		if (kind == 2) attempt(int16_t());
		if (kind == 3) attempt(int32_t());
	} catch (std::exception&) { refused = true; }
	MC_CHECK(refused, "unknown-size", "a size that is not known is written as " + mc::quoted(output));
	mc::step(mc::fmt("%d %d", kind, object));
	mc::validated();
});
static mc::Register everyInt16("all of int16_t", 16, [] (int u) { binaryRoundTrip<uint16_t, int16_t>(int16_t(u * 4096 + mc::choose(4096)), false, false); });
static mc::Register everyUint16("all of uint16_t", 16, [] (int u) { binaryRoundTrip<uint16_t, uint16_t>(uint16_t(u * 4096 + mc::choose(4096)), false, false); });
static mc::Register everyInt8("all of int8_t and uint8_t", 1, [] (int) { int v = mc::choose(256); binaryRoundTrip<uint16_t, int8_t>(int8_t(v), false, false); binaryRoundTrip<uint16_t, uint8_t>(uint8_t(v), false, false); });
static mc::Register everyExponent("doubles and floats of every exponent", 32, [] (int u) {
	static const uint64_t mantissas[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x123456789abcdull};
	uint64_t exponent = u * 64 + mc::choose(64);
	uint64_t bits = exponent << 52 | mc::pick(mantissas) | uint64_t(mc::choose(2)) << 63;
	double v;
	memcpy(&v, &bits, sizeof(v));
	if (std::isfinite(v)) binaryRoundTrip<uint16_t, double>(v, false, false);
	if (exponent < 255) {
		uint32_t small = uint32_t(exponent) << 23 | uint32_t(bits & 0x7fffff) | uint32_t(bits >> 32 & 0x80000000);
		float f;
		memcpy(&f, &small, sizeof(f));
		binaryRoundTrip<uint16_t, float>(f, false, false);
	}
});
// Both infinities and numbers that are not numbers keep their bits too, because the layout says they are stored as they are
static mc::Register half("all 16 bit floats", 16, [] (int u) {
	uint16_t bits = uint16_t(u * 4096 + mc::choose(4096));
	_Float16 reference;
	memcpy(&reference, &bits, 2);
	float expected = float(reference);
	std::string data = {char(bits & 0xff), char(bits >> 8)};
	mc::describe(mc::fmt("half %04x", bits));
	Exact exact(data);
	BinaryFormat<>::Input in(exact.view());
	double got = in.readFloat(SerialisationFlags::FLOAT_16);
	MC_CHECK(in.position() == 2, "half-position", "other than 2 bytes were read");
	if (std::isnan(expected)) MC_CHECK(std::isnan(got), "half-nan", "not-a-number is read as a number");
	else {
		MC_CHECK(got == expected && std::signbit(got) == std::signbit(expected), "half-read", mc::fmt("%04x is read as %g, not %g", bits, got, expected));
		std::string written;
		BinaryFormat<>::Output out(written);
		out.writeFloat(SerialisationFlags::FLOAT_16, expected);
		MC_CHECK(written == data, "half-write", mc::fmt("%g is written as %s, not %04x", expected, mc::quoted(written).c_str(), bits));
		// What is between representable numbers becomes one of its neighbours
		uint32_t f;
		memcpy(&f, &expected, 4);
		f += 0x0fff;
		float between;
		memcpy(&between, &f, 4);
		if (std::isfinite(between) && std::isfinite(expected)) {
			std::string near;
			BinaryFormat<>::Output nearOut(near);
			nearOut.writeFloat(SerialisationFlags::FLOAT_16, between);
			Exact nearExact(near);
			BinaryFormat<>::Input nearIn(nearExact.view());
			double back = nearIn.readFloat(SerialisationFlags::FLOAT_16);
			double tolerance = std::max(std::fabs(double(between)) / 1024, 1.0 / (1 << 24));
			MC_CHECK(std::fabs(back - between) <= tolerance || std::fabs(between) >= 65504, "half-near", mc::fmt("%.9g becomes %.9g", between, back));
		}
	}
	mc::step(data);
	mc::validated();
});
#endif

#if PART == 3
// Members with declared types of numbers
using namespace SerialisationFlags;
struct Flagged : Serialisable<Flagged> {
	int a = key<"a", UINT_8>;
	int64_t b = key<"b", INT_16>;
	double c = key<"c", FLOAT_32>;
	float d = key<"d", FLOAT_16>;
	std::string e = key<"e", UINT_8>;
	uint16_t f = key<"f", UINT_64>;
	bool g = key<"g", UINT_32>;
	std::vector<int> h = key<"h", UINT_32>;
	Optional<int> i = key<"i", INT_64>;
	std::vector<std::string> j = key<"j", UINT_8>;
	std::map<std::string, int> k = key<"k", INT_8>;
	float l = key<"l", FLOAT_64>;
	int8_t m = key<"m">;
};
template <> struct zoo::Kit<Flagged> {
	static std::string name() { return "Flagged"; }
	static Flagged gen(int level) {
		Flagged r;
		static const int as[] = {5, 0, 255, 128}, ks[] = {7, -128, 127};
		static const int64_t bs[] = {-3, 32767, -32768}, is[] = {1, INT_MIN};
		static const double cs[] = {0.5, -3.4028234663852886e38, 1e-45 == 0 ? 0 : 1.401298464324817e-45};
		static const float ds[] = {1.5f, 65504.f, -5.960464477539063e-08f};
		int which = mc::choose(level == 0 ? 13 : 2); // Which member is not the usual
		r.a = which == 0 ? mc::pick(as) : 200;
		r.b = which == 1 ? mc::pick(bs) : -2;
		r.c = which == 2 ? mc::pick(cs) : 0.25;
		r.d = which == 3 ? mc::pick(ds) : -2.5f;
		r.e = which == 4 ? Kit<std::string>::gen(0) : "e";
		r.f = which == 5 ? 65535 : 258;
		r.g = which == 6 ? false : true;
		r.h = which == 7 ? std::vector<int>{} : std::vector<int>{1, 70000, 1 << 30};
		if (which != 8) r.i = mc::pick(is);
		r.j = which == 9 ? std::vector<std::string>{"", "x", std::string(255, 'y')} : std::vector<std::string>{"j"};
		if (which == 10) { r.k[""] = mc::pick(ks); r.k["kk"] = mc::pick(ks); } else r.k["k"] = 3;
		r.l = which == 11 ? 3.4028234663852886e38f : 0.125f;
		r.m = which == 12 ? -128 : -1;
		return r;
	}
	static bool same(const Flagged& a, const Flagged& b) {
		return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d && a.e == b.e && a.f == b.f && a.g == b.g && a.h == b.h && bool(a.i) == bool(b.i) && (!a.i || *a.i == *b.i)
				&& a.j == b.j && a.k == b.k && a.l == b.l && a.m == b.m;
	}
	static Node node(const Flagged& v) {
		Node n = Node::object();
		n.reflected = true;
		n.o.emplace_back("a", Node::integer(v.a)); n.o.emplace_back("b", Node::integer(v.b)); n.o.emplace_back("c", Node::floating(v.c)); n.o.emplace_back("d", Node::floating(v.d));
		n.o.emplace_back("e", Node::string(v.e.size() > 255 ? std::string(70000, 'x') : v.e)); // Does not fit even if the format's sizes are larger
		n.o.emplace_back("g", Node::boolean(v.g));
		return n;
	}
	static void binary(std::string& out, const Flagged& v, int) {
		putLE(out, uint8_t(v.a)); putLE(out, int16_t(v.b)); Kit<float>::binary(out, float(v.c), 0);
		_Float16 d = _Float16(v.d); uint16_t bits; memcpy(&bits, &d, 2); putLE(out, bits);
		putSize(out, v.e.size(), 1); out += v.e;
		putLE(out, uint64_t(v.f)); out += char(v.g);
		putSize(out, v.h.size(), 4); for (int it : v.h) putLE(out, uint32_t(it));
		out += char(bool(v.i)); if (v.i) putLE(out, int64_t(*v.i));
		putSize(out, v.j.size(), 1); for (auto& it : v.j) { putSize(out, it.size(), 1); out += it; }
		putSize(out, v.k.size(), 1); for (auto& [k, it] : v.k) { putSize(out, k.size(), 1); out += k; putLE(out, int8_t(it)); }
		Kit<double>::binary(out, double(v.l), 0); putLE(out, v.m);
	}
};
static mc::Register flagged("members with declared numeric types", 3, [] (int u) {
	if (u == 0) binaryRoundTrip<uint16_t, Flagged>(Kit<Flagged>::gen(0), true, true);
	else if (u == 1) binaryRoundTrip<uint8_t, Flagged>(Kit<Flagged>::gen(0), false, true);
	else {
		Flagged inside = Kit<Flagged>::gen(0);
		if (inside.e.size() > 255) return;
		std::vector<Flagged> v;
		v.push_back(inside);
		v.push_back(Kit<Flagged>::gen(1));
		binaryRoundTrip<uint16_t, std::vector<Flagged>>(v, false, true);
	}
});
// The interface used directly: every numeric type with every value and the size of strings by flags
static mc::Register direct("numbers with declared types", 10, [] (int u) {
	static const Flags flags[] = {INT_8, UINT_8, INT_16, UINT_16, INT_32, UINT_32, INT_64, UINT_64, FLOAT_32, FLOAT_64};
	static const int sizes[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
	Flags flag = flags[u];
	std::string written, expected;
	BinaryFormat<>::Output out(written);
	out.writeString(noFlags, "p");
	if (u < 8) {
		auto& d = Kit<int64_t>::domain();
		int64_t v = mc::pick(d);
		bool isSigned = u % 2 == 0;
		int bits = sizes[u] * 8;
		if (bits < 64) { // Only values that fit
			if (isSigned && (v < -(int64_t(1) << (bits - 1)) || v >= int64_t(1) << (bits - 1))) return;
			if (!isSigned && (v < 0 || v >= int64_t(1) << bits)) return;
		}
		mc::describe(mc::fmt("integer %lld as type %x", (long long)v, flag));
		out.writeInt(flag, v);
		expected = std::string("\1\0p", 3);
		for (int i = 0; i < sizes[u]; i++) expected += char(uint64_t(v) >> (8 * i));
		MC_CHECK(written == expected, "direct-int", "written " + mc::quoted(written) + " instead of " + mc::quoted(expected));
		Exact exact(written);
		BinaryFormat<>::Input in(exact.view());
		in.readString(noFlags);
		int64_t got = in.readInt(flag);
		MC_CHECK(got == v, "direct-read", mc::fmt("read %lld", (long long)got));
		MC_CHECK(in.position() == int(expected.size()), "direct-position", "read another size than written");
	} else {
		auto& d = Kit<float>::domain();
		double v = mc::pick(d);
		mc::describe(mc::fmt("float %g as type %x", v, flag));
		out.writeFloat(flag, v);
		expected = std::string("\1\0p", 3);
		if (u == 8) Kit<float>::binary(expected, float(v), 0); else Kit<double>::binary(expected, v, 0);
		MC_CHECK(written == expected, "direct-float", "written " + mc::quoted(written) + " instead of " + mc::quoted(expected));
		Exact exact(written);
		BinaryFormat<>::Input in(exact.view());
		in.readString(noFlags);
		double got = in.readFloat(flag);
		MC_CHECK(sameDouble(got, v), "direct-float-read", mc::fmt("read %g", got));
	}
	mc::step(written);
	mc::validated();
});
static mc::Register rewinding("storing and restoring positions", 1, [] (int) {
	std::string written;
	BinaryFormat<>::Output out(written);
	out.writeInt(INT_16, 5);
	out.writeString(noFlags, "abc");
	out.writeBool(noFlags, true);
	Exact exact(written);
	BinaryFormat<>::Input in(exact.view());
	int at = 0;
	IStructuredInput::Location stored[3];
	int steps = mc::choose(3) + 1;
	auto readOne = [&] (int which) {
		if (which == 0) MC_CHECK(in.readInt(INT_16) == 5, "rewind-int", "another number was read");
		if (which == 1) MC_CHECK(in.readString(noFlags) == "abc", "rewind-string", "another string was read");
		if (which == 2) MC_CHECK(in.readBool(noFlags), "rewind-bool", "another boolean was read");
	};
	for (; at < steps; at++) { stored[at] = in.storePosition(noFlags); readOne(at); }
	int back = mc::choose(steps);
	in.restorePosition(noFlags, stored[back]);
	for (int i = back; i < 3; i++) readOne(i);
	mc::describe(mc::fmt("%d steps and back to %d", steps, back));
	mc::step(mc::hash("rewind") + steps * 8 + back);
	mc::validated();
});
#endif
