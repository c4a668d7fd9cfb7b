// C02: what the JSON writer writes, read by an independent strict parser
#include "zoo.hpp"
using namespace zoo;

static void compareWithParsed(const std::string& text, const Node& expected, const char* how) {
	StrictJson parser(text);
	Node parsed;
	bool valid = parser.document(parsed);
	MC_CHECK(valid, std::string("invalid:") + how, parser.error + " in " + mc::quoted(text));
	if (valid)
		MC_CHECK(sameNode(parsed, expected), std::string("meaning:") + how, "means " + show(parsed).substr(0, 300) + ", it should be " + show(expected).substr(0, 300) + ", text " + mc::quoted(text, 300));
	mc::step(mc::mix(mc::hash(text), mc::hash(how)));
}

template <typename T>
void written(const T& v) {
	std::string text;
	BasicJson<>::Output out(text);
	TypedSerialiser<T>::serialiseMember(out, v, noFlags);
	mc::describe(Kit<T>::name() + " " + mc::quoted(text, 200));
	compareWithParsed(text, Kit<T>::node(v), "typed");
	mc::validated();
}

template <typename T>
void addType(const char* group) {
	mc::Register(group + Kit<T>::name(), 1, [] (int) { written<T>(Kit<T>::gen(0)); });
}
static int added = [] {
	onlyValidUtf8 = true;
#if PART == 0
	forEach(Leaves(), [] <typename T> () { addType<T>("leaf "); });
	forEach(Depth1(), [] <typename T> () { addType<T>("depth1 "); });
	forEach(Mixed(), [] <typename T> () { addType<T>("mixed "); });
#elif PART == 1
	forEach(Depth2(), [] <typename T> () { addType<T>("depth2 "); });
#endif
	return 0;
}();

#if PART == 2
// All documents that can be assembled through the writer's interface up to some size
struct Builder {
	int budget; // How many more values may be started
	int maxWidth;

	void scalar(IStructuredOutput& out, Node& n, int which) {
		switch (which) {
		case 0: n = Node::integer(-6000000000); out.writeInt(noFlags, -6000000000); break;
		case 1: n = Node::null(); out.writeNull(noFlags); break;
		case 2: n = Node::boolean(false); out.writeBool(noFlags, false); break;
		case 3: n = Node::string("\"\n\x01"); out.writeString(noFlags, "\"\n\x01"); break;
		case 4: n = Node::floating(-0.7); out.writeFloat(noFlags, -0.7); break;
		}
	}
	static constexpr int scalars = 3;
	// Containers are started with the size known, unknown, and members may use the raw interface or the fillers
	void value(IStructuredOutput& out, Node& n, int depth) {
		budget--;
		int kind = mc::choose(depth > 0 && budget > 0 ? scalars + 4 : scalars);
		if (kind < scalars) { scalar(out, n, kind + (depth & 1 ? 2 : 0)); return; }
		bool object = (kind - scalars) & 1;
		bool known = (kind - scalars) & 2;
		int width = mc::choose(std::min(maxWidth, budget) + 1);
		int left = budget - width;
		budget = std::max(left, 0); // Reserved for siblings
		if (object) {
			n = Node::object();
			static const char* names[] = {"a", "b\"\\", "", "a"};
			int firstIndex = width > 0 && known ? mc::choose(2) : 0; // The first ones may have been omitted
			out.startWritingObject(noFlags, known ? width : IStructuredOutput::UNKNOWN_SIZE);
			for (int i = 0; i < width; i++) {
				n.o.emplace_back(names[i], Node());
				out.introduceObjectMember(noFlags, names[i], i + firstIndex);
				budget++;
				value(out, n.o.back().second, depth - 1);
			}
			out.endWritingObject(noFlags);
		} else {
			n = Node::array();
			out.startWritingArray(noFlags, known ? width : IStructuredOutput::UNKNOWN_SIZE);
			for (int i = 0; i < width; i++) {
				n.a.emplace_back();
				out.introduceArrayElement(noFlags, i);
				budget++;
				value(out, n.a.back(), depth - 1);
			}
			out.endWritingArray(noFlags);
		}
	}
};
static mc::Register documents("documents written through the interface", 1, [] (int) {
	std::string text;
	Node expected;
	{
		BasicJson<>::Output out(text);
		Builder builder{mc::thorough() ? 6 : 5, 3};
		builder.value(out, expected, 4);
	}
	mc::describe(mc::quoted(text, 300));
	compareWithParsed(text, expected, "interface");
	mc::validated();
});
static mc::Register fillers("documents written through the fillers", 1, [] (int) {
	std::string text;
	Node expected = Node::object();
	auto add = [&] (auto& array, Node& n, int what) {
		switch (what) {
		case 0: array.writeInt(INT64_MIN + 1); n.a.push_back(Node::integer(INT64_MIN + 1)); break;
		case 1: array.writeString("x\ty"); n.a.push_back(Node::string("x\ty")); break;
		case 2: array.writeNull(); n.a.push_back(Node::null()); break;
		case 3: array.writeBool(true); n.a.push_back(Node::boolean(true)); break;
		case 4: array.writeFloat(0.1); n.a.push_back(Node::floating(0.1)); break;
		case 5: { auto inner = array.writeArray(); n.a.push_back(Node::array()); break; }
		case 6: { auto inner = array.writeObject(0); n.a.push_back(Node::object()); break; }
		case 7: { auto inner = array.writeArray(1); inner.writeInt(1); n.a.push_back(Node::array()); n.a.back().a.push_back(Node::integer(1)); break; }
		}
	};
	auto addMember = [&] (auto& object, Node& n, const char* name, int what) {
		switch (what) {
		case 0: object.writeInt(name, INT64_MAX); n.o.emplace_back(name, Node::integer(INT64_MAX)); break;
		case 1: object.writeString(name, ""); n.o.emplace_back(name, Node::string("")); break;
		case 2: object.writeNull(name); n.o.emplace_back(name, Node::null()); break;
		case 3: object.writeBool(name, false); n.o.emplace_back(name, Node::boolean(false)); break;
		case 4: object.writeFloat(name, 1e300); n.o.emplace_back(name, Node::floating(1e300)); break;
		case 5: {
			auto inner = object.writeObject(name);
			n.o.emplace_back(name, Node::object());
			if (mc::choose(2)) { inner.writeInt("x", 1); n.o.back().second.o.emplace_back("x", Node::integer(1)); }
			break;
		}
		default: {
			Node made = Node::array();
			{
				auto inner = object.writeArray(name, what == 6 ? IStructuredOutput::UNKNOWN_SIZE : 2);
				int count = what == 6 ? mc::choose(3) : 2;
				for (int i = 0; i < count; i++) add(inner, made, mc::choose(8));
			}
			n.o.emplace_back(name, made);
		}
		}
	};
	{
		BasicJson<>::Output out(text);
		IStructuredOutput& output = out;
		auto object = output.writeObject();
		int members = mc::choose(mc::thorough() ? 4 : 3);
		static const char* names[] = {"one", "t\"w\\o", "three"};
		for (int i = 0; i < members; i++) addMember(object, expected, names[i], mc::choose(8));
	}
	mc::describe(mc::quoted(text, 300));
	compareWithParsed(text, expected, "fillers");
	mc::validated();
});
// Every Unicode character
static mc::Register everyCharacter("strings of every character", 17 * 16, [] (int u) {
	for (uint32_t c = u * 4096; c < uint32_t(u + 1) * 4096; c++) {
		if (c >= 0xd800 && c < 0xe000) continue;
		std::string s;
		StrictJson::utf8(s, c);
		written<std::string>(s);
	}
});
static mc::Register everyPair("strings of two ASCII characters", 128, [] (int u) {
	written<std::string>(std::string(1, char(u)) + char(mc::choose(128)));
});
static mc::Register keys("keys with every ASCII character", 128, [] (int u) {
	std::map<std::string, int> map;
	map[std::string(1, char(u))] = 1;
	map[std::string(1, char(mc::choose(128))) + "k"] = 2;
	written(map);
});
static mc::Register exponents("doubles of every exponent", 32, [] (int u) {
	static const uint64_t mantissas[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0x123456789abcdull};
	uint64_t exponent = u * 64 + mc::choose(64);
	if (exponent > 2046) return;
	uint64_t bits = exponent << 52 | mc::pick(mantissas) | uint64_t(mc::choose(2)) << 63;
	double v;
	memcpy(&v, &bits, sizeof(v));
	written<double>(v);
});
template <typename I>
void powers(const char* name) {
	mc::Register(name, 1, [] (int) {
		__int128 base = mc::choose(2) ? 10 : 2, v = 1;
		int n = mc::choose(64);
		for (int i = 0; i < n && v < ((__int128)1 << 65); i++) v *= base;
		v += mc::choose(3) - 1;
		if (mc::choose(2)) v = -v;
		if (v < std::numeric_limits<I>::min() || v > std::numeric_limits<I>::max()) return;
		written<I>(I(v));
	});
}
static int morePowers = (powers<int8_t>("powers int8_t"), powers<uint16_t>("powers uint16_t"), powers<int32_t>("powers int32_t"), powers<uint32_t>("powers uint32_t"),
		powers<int64_t>("powers int64_t"), powers<uint64_t>("powers uint64_t"), powers<unsigned long long>("powers unsigned long long"), powers<char>("powers char"), 0);
#endif
