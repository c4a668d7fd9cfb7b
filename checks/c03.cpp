// C03: every layout of valid documents (whitespace, order, escapes, number forms, unknown and absent members) within a number of deviations
#include "zoo.hpp"
using namespace zoo;

struct Layout {
	std::string out;
	int whitespace = 0, escapes = 0; // Styles of the whole document
	bool deviate = true;
	bool omitted = false;
	int dev(int n) { return deviate ? mc::chooseDev(n) : 0; }

	void ws() {
		static const char* kinds[] = {"", " ", "\n\t", "\r\n  \t\t "};
		int kind = dev(4);
		out += kinds[(kind + whitespace) % 4];
	}
	static uint32_t decode(std::string_view s, size_t& i) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		uint32_t v = n == 0 ? c : c & (0x3f >> n);
		for (int j = 1; j <= n; j++) v = v << 6 | (s[i + j] & 0x3f);
		i += n + 1;
		return v;
	}
	void string(std::string_view s) {
		int style = (dev(4) + escapes) % 4;
		out += '"';
		for (size_t i = 0; i < s.size(); ) {
			size_t start = i;
			uint32_t c = decode(s, i);
			auto unit = [&] (uint32_t u) { out += mc::fmt(style == 2 ? "\\u%04X" : "\\u%04x", u); };
			auto escape = [&] {
				if (c >= 0x10000) { unit(0xd800 + ((c - 0x10000) >> 10)); unit(0xdc00 + ((c - 0x10000) & 0x3ff)); }
				else unit(c);
			};
			static const char shortFrom[] = "\"\\/\b\f\n\r\t", shortTo[] = "\"\\/bfnrt";
			const char* at = c && c < 0x80 ? strchr(shortFrom, c) : nullptr;
			if (style == 1 || style == 2) escape();
			else if (at && (*at != '/' || style == 3)) { out += '\\'; out += shortTo[at - shortFrom]; }
			else if (c < 0x20 || (style == 3 && (start & 1))) escape();
			else out += s.substr(start, i - start);
		}
		out += '"';
	}
	void number(const Node& n) {
		if (n.kind == Node::Int) {
			if (n.i == 0 && dev(2)) { out += "-0"; return; }
			out += intText(n.i);
			return;
		}
		std::string plain = mc::fmt("%.17g", n.d);
		switch (dev(5)) {
		case 0: out += plain; break;
		case 1: out += mc::fmt("%.17E", n.d); break;
		case 2: out += mc::fmt("%.25e", n.d); break;
		case 3: { // Without the decimal part if there is none, with it otherwise
			if (std::fabs(n.d) < 1e15 && std::fabs(n.d) > 1e-3) out += mc::fmt("%.25f", n.d); else out += plain;
			break;
		}
		case 4: { // The exponent with zeroes and an explicit sign
			std::string s = mc::fmt("%.17e", n.d);
			size_t e = s.find('e');
			out += s.substr(0, e) + "E" + s[e + 1] + "0" + s.substr(e + 2);
			break;
		}
		}
	}
	void extra() {
		static const char* names[] = {"zz", "firs", "first22", "A", "", "q\"}{", "[", "seconds"};
		static const char* values[] = {"null", "0", "\"\"", "{}", "[]", "true", "-1.5e+10", "\"}\"", "\"\\\\\"", "\"\\\"]\"", "{\"a\":{\"a\":[1,\"]\"],\"b\":\"\\\"}\"}}", "[[],{},\"[{\"]", "[1,2,{\"x\":null}, \"\\\\\"]", "{\"a\" : 1 , \"first\" : 2}",
				"\"a\"", "[ ]", "{ }", "[false,null]", "12345678901234567890123", "\"\\u0022\"", "\"//,:\"", "[{},[[]],{\"\":[]}]"};
		int what = mc::choose(int(std::size(values)) + int(std::size(names)) - 1);
		std::string name = what < int(std::size(values)) ? names[0] : names[what - std::size(values) + 1];
		ws();
		out += '"';
		for (char c : name) { if (c == '"') out += '\\'; out += c; }
		out += '"';
		ws();
		out += ':';
		ws();
		out += values[what < int(std::size(values)) ? what : 0];
		ws();
	}
	// Writes the document and returns what the target should hold if it held `old` before
	Node value(const Node& n, const Node* old) {
		switch (n.kind) {
		case Node::Null: out += "null"; return n;
		case Node::Bool: out += n.b ? "true" : "false"; return n;
		case Node::Str: string(n.s); return n;
		case Node::Int: case Node::Float: number(n); return n;
		case Node::Arr: {
			Node r = Node::array();
			out += '[';
			if (n.a.empty()) ws();
			for (size_t i = 0; i < n.a.size(); i++) {
				if (i) out += ',';
				ws();
				r.a.push_back(value(n.a[i], nullptr));
				ws();
			}
			out += ']';
			return r;
		}
		case Node::Obj: break;
		}
		Node r = Node::object();
		r.reflected = n.reflected;
		r.o = n.o;
		std::vector<int> order;
		for (size_t i = 0; i < n.o.size(); i++) order.push_back(int(i));
		if (n.o.size() > 1) {
			int permutation = dev(n.o.size() == 2 ? 2 : 6);
			for (int i = 0; i < permutation; i++) std::next_permutation(order.begin(), order.end());
		}
		if (n.reflected && old && old->kind == Node::Obj) {
			int omit = dev(int(n.o.size()) + (n.o.size() > 1 ? 2 : 1));
			if (omit) {
				omitted = true;
				if (omit > int(n.o.size())) {
					for (int i : order) r.o[i].second = old->o[i].second;
					order.clear();
				} else {
					r.o[omit - 1].second = old->o[omit - 1].second;
					order.erase(std::find(order.begin(), order.end(), omit - 1));
				}
			}
		}
		out += '{';
		bool first = true;
		if (order.empty()) ws();
		for (size_t i = 0; i <= order.size(); i++) {
			if (n.reflected && dev(2)) {
				if (!first) out += ',';
				first = false;
				extra();
			}
			if (i == order.size()) break;
			if (!first) out += ',';
			first = false;
			ws();
			string(n.o[order[i]].first);
			ws();
			out += ':';
			ws();
			const Node* oldMember = n.reflected && old && old->kind == Node::Obj ? &old->o[order[i]].second : nullptr;
			r.o[order[i]].second = value(n.o[order[i]].second, oldMember);
			ws();
		}
		out += '}';
		return r;
	}
};

template <typename T>
void readLayout(const T& v, T into, bool filled, int whitespaceStyles, int escapeStyles) {
	Layout layout;
	layout.whitespace = mc::choose(whitespaceStyles);
	layout.escapes = mc::choose(escapeStyles);
	layout.ws();
	Node node = Kit<T>::node(v), old = Kit<T>::node(into);
	Node expected = layout.value(node, filled ? &old : nullptr);
	size_t end = layout.out.size();
	static const char* trailing[] = {"", " ", ",", "}", "]", "\n{\"a\":[1]}"};
	std::string text = layout.out + trailing[mc::chooseDev(6)];
	mc::describe(Kit<T>::name() + " from " + mc::quoted(text, 500));
	Exact exact(text);
	try {
		BasicJson<>::Input in(exact.view());
		TypedSerialiser<T>::deserialiseMember(in, into, noFlags);
		MC_CHECK(in.good, "not-good", "reading a valid document was reported as failed: " + mc::quoted(text));
		int position = in.storePosition(noFlags).loc;
		MC_CHECK(position == int(end), "position", mc::fmt("reading ended at %d, the document ends at %zu in ", position, end) + mc::quoted(text));
	} catch (std::exception& e) {
		mc::fail("exception", std::string(e.what()) + " when reading " + mc::quoted(text));
		return;
	}
	Node got = Kit<T>::node(into);
	MC_CHECK(sameNode(got, expected), "value", "read " + show(got).substr(0, 300) + ", expected " + show(expected).substr(0, 300) + " from " + mc::quoted(text, 300));
	mc::step(mc::mix(mc::hash(text), mc::hash(show(got))));
	mc::validated();
}

static int added = [] {
	onlyValidUtf8 = true;
#if PART == 0
	// All values, little variation
	forEach(Leaves(), [] <typename T> () { mc::Register("leaf " + Kit<T>::name(), 1, [] (int) { readLayout<T>(Kit<T>::gen(0), T{}, false, 4, 4); }, 2); });
	forEach(Depth1(), [] <typename T> () { mc::Register("depth1 " + Kit<T>::name(), 1, [] (int) { readLayout<T>(Kit<T>::gen(1), Kit<T>::gen(3), true, 2, 2); }, 1); });
#elif PART == 1
	forEach(Mixed(), [] <typename T> () { mc::Register("mixed " + Kit<T>::name(), 2, [] (int u) { readLayout<T>(Kit<T>::gen(Kit<T>::name().starts_with("array<vector") ? 3 : u ? 2 : 1), Kit<T>::gen(3), true, 4, 1); }, 1); });
#else
	// More variation of fewer values
	using Deep = List<Two<int32_t, bool>, Two<std::string, std::string>, Three<int32_t, std::string, bool>, Two<One<int32_t>, One<std::string>>, Two<bool, std::vector<std::string>>, std::vector<Two<std::string, int32_t>>,
			std::map<std::string, One<bool>>, Three<Optional<int32_t>, std::vector<int8_t>, std::string>, One<std::unique_ptr<One<std::string>>>, Three<double, One<One<int32_t>>, std::map<std::string, int32_t>>>;
	forEach(Deep(), [] <typename T> () { mc::Register("deep " + Kit<T>::name(), 1, [] (int) { readLayout<T>(Kit<T>::gen(3), Kit<T>::gen(3), true, 2, 1); }, 2); });
#endif
	return 0;
}();

#if PART == 2
// What identifyType() says about the beginnings of values, because methods and clients use it
static mc::Register identified("identified types", 1, [] (int) {
	struct Case { const char* text; IStructuredInput::MemberType type; };
	static const Case cases[] = {{"1", IStructuredInput::TYPE_INTEGER}, {"-1", IStructuredInput::TYPE_INTEGER}, {"0", IStructuredInput::TYPE_INTEGER}, {"-0.5", IStructuredInput::TYPE_FLOAT}, {"1e5", IStructuredInput::TYPE_FLOAT},
			{"1E5", IStructuredInput::TYPE_FLOAT}, {"12345678901234567890", IStructuredInput::TYPE_INTEGER}, {"\"1.5\"", IStructuredInput::TYPE_STRING}, {"\"\"", IStructuredInput::TYPE_STRING}, {"true", IStructuredInput::TYPE_BOOLEAN},
			{"false", IStructuredInput::TYPE_BOOLEAN}, {"null", IStructuredInput::TYPE_NULL}, {"[]", IStructuredInput::TYPE_ARRAY}, {"[1.5]", IStructuredInput::TYPE_ARRAY}, {"{}", IStructuredInput::TYPE_OBJECT},
			{"{\"a\":1}", IStructuredInput::TYPE_OBJECT}, {"", IStructuredInput::TYPE_INVALID}, {"}", IStructuredInput::TYPE_INVALID}, {"?", IStructuredInput::TYPE_INVALID}};
	static const char* before[] = {"", " ", "\n\t\r "};
	static const char* after[] = {"", " ", ",1.5", ",\"e\"", "}", "]", " .5"};
	auto& c = mc::pick(cases);
	if (!*c.text && mc::choose(2)) return;
	std::string text = std::string(mc::pick(before)) + c.text + (*c.text ? mc::pick(after) : "");
	mc::describe(mc::quoted(text));
	Exact exact(text);
	BasicJson<>::Input in(exact.view());
	auto start = in.storePosition(noFlags);
	MC_CHECK(in.identifyType(noFlags) == c.type, "identified", "the type is identified wrongly in " + mc::quoted(text));
	MC_CHECK(in.identifyType(noFlags) == c.type, "identified-again", "identifying the type again says something else in " + mc::quoted(text));
	if (c.type != IStructuredInput::TYPE_INVALID) { // Skipping ends exactly behind the value
		try {
			in.skipObjectElement(noFlags);
			std::string rest = text.substr(in.storePosition(noFlags).loc);
			size_t from = text.find(c.text) + strlen(c.text);
			MC_CHECK(rest == text.substr(from), "skipped", "after skipping, this is left: " + mc::quoted(rest) + " in " + mc::quoted(text));
			in.restorePosition(noFlags, start);
			MC_CHECK(in.identifyType(noFlags) == c.type, "restored", "after restoring the position, the type is something else");
		} catch (std::exception& e) {
			mc::fail("skip-exception", std::string(e.what()) + " when skipping " + mc::quoted(text));
		}
	}
	mc::step(text);
	mc::validated();
});
// All hexadecimal escapes, in both cases and in pairs
static mc::Register escapes("all escapes of characters", 17 * 16, [] (int u) {
	for (uint32_t c = u * 4096; c < uint32_t(u + 1) * 4096; c++) {
		if (c >= 0xd800 && c < 0xe000) continue;
		for (const char* form : {"\\u%04x", "\\u%04X"}) {
			std::string text = "\"x";
			if (c >= 0x10000) { text += mc::fmt(form, 0xd800 + ((c - 0x10000) >> 10)); text += mc::fmt(form, 0xdc00 + ((c - 0x10000) & 0x3ff)); }
			else text += mc::fmt(form, c);
			text += "y\"";
			std::string expected = "x", got;
			StrictJson::utf8(expected, c);
			expected += "y";
			Exact exact(text);
			BasicJson<>::Input in(exact.view());
			try {
				got = in.readString(noFlags);
			} catch (std::exception& e) { got = e.what(); }
			MC_CHECK(got == expected, "escape", mc::quoted(text) + " is read as " + mc::quoted(got));
			mc::step(mc::hash(text));
		}
	}
	mc::describe(mc::fmt("escapes of U+%X to U+%X", u * 4096, u * 4096 + 4095));
	mc::validated();
});
#endif
