// C04: all small byte and token sequences and all mutations of documents, read as JSON into various types
#include "zoo.hpp"
using namespace zoo;

// Reads and returns whether it was reported as an error
template <typename T>
bool contained(std::string_view text, T& into) {
	Exact exact(text);
	bool reported = false;
	try {
		BasicJson<>::Input in(exact.view());
		TypedSerialiser<T>::deserialiseMember(in, into, noFlags);
		reported = !in.good;
		int position = in.storePosition(noFlags).loc;
		MC_CHECK(position >= 0 && position <= int(text.size()), "position", mc::fmt("the position is %d of %zu after reading ", position, text.size()) + mc::quoted(text));
	} catch (std::exception& e) {
		reported = true;
		MC_CHECK(documentedError(e), std::string("exception:") + typeid(e).name(), std::string(e.what()) + " when reading " + mc::quoted(text));
	}
	mc::step(mc::mix(mc::hash(text), reported));
	return reported;
}

struct Any {
	const char* name;
	std::function<bool(std::string_view)> read;
	std::vector<std::string> documents;
};
template <typename T>
Any any(const char* name, std::vector<std::string> documents) {
	return {name, [] (std::string_view text) { T into{}; return contained<T>(text, into); }, documents};
}
struct Skipper {}; // Identifies and skips
static bool skip(std::string_view text) {
	Exact exact(text);
	try {
		BasicJson<>::Input in(exact.view());
		for (int i = 0; i < 3; i++) {
			auto type = in.identifyType(noFlags);
			if (type == IStructuredInput::TYPE_INVALID) break;
			in.skipObjectElement(noFlags);
		}
		MC_CHECK(in.storePosition(noFlags).loc <= int(text.size()), "position", "skipping got behind the end of " + mc::quoted(text));
	} catch (std::exception& e) {
		MC_CHECK(documentedError(e), std::string("exception:") + typeid(e).name(), std::string(e.what()) + " when skipping in " + mc::quoted(text));
		return true;
	}
	mc::step(text);
	return false;
}

using Pair = Two<int32_t, std::string>;
using Big = Three<Optional<int32_t>, std::vector<int8_t>, std::string>;
static const std::vector<Any>& all() {
	static std::vector<Any> made = {
		any<Pair>("Two<int32,string>", {"{\n\t\"a\" : 5,\n\t\"b\" : \"x\\n\"\n}", "{\"b\":\"\\u0041\\ud83d\\ude00\",\"a\":-1}", "{\"c\":[1,{\"x\":\"]\\\"\"}],\"a\":1}", "{}", "{\"a\":1.5e3,\"z\":null}"}),
		any<Big>("Three<optional,vector,string>", {"{\"first\":null,\"second\":[1,2],\"first2\":\"\"}", "{\"first\":7,\"second\":[]}"}),
		any<std::vector<std::string>>("vector<string>", {"[\"a\",\"b\\\\\"]", "[]", "[\n\t\"\\\"\"\n]"}),
		any<std::map<std::string, One<int32_t>>>("map<One<int32>>", {"{\"k\":{\"a\":1},\"l\":{}}", "{}"}),
		any<std::vector<One<bool>>>("vector<One<bool>>", {"[{\"a\":true},{\"a\":false}]"}),
		any<std::array<int16_t, 2>>("array<int16,2>", {"[1,-2]", "[1,2,3]", "[]"}),
		any<Optional<std::string>>("optional<string>", {"null", "\"text\""}),
		any<std::unique_ptr<One<std::vector<double>>>>("unique_ptr<One<vector<double>>>", {"{\"a\":[1.5,-2e-7,1E+5]}", "null"}),
		any<int32_t>("int32", {"-123", "0"}), any<uint64_t>("uint64", {"18446744073709551615"}), any<double>("double", {"-1.5e-10"}), any<float>("float", {"0.1"}), any<bool>("bool", {"true", "false"}),
		any<std::string>("string", {"\"a\\u00e9\\/\"", "\"\""}),
		{"skipping", skip, {"{\"a\":[1,{\"x\":\"]\\\"\"}],\"b\":null}", "\"x\\\\\\\"\" 1", "[[],{},\"}\"] true"}},
	};
	return made;
}
static const int kinds = 15;

// Documents that are cut anywhere
static mc::Register truncated("truncated documents", kinds, [] (int u) {
	auto& it = all()[u];
	for (auto& document : it.documents) {
		mc::describe(std::string(it.name) + " from prefixes of " + mc::quoted(document));
		MC_CHECK(!it.read(document) || std::string_view(it.name) == "skipping", "valid", "the document was not accepted: " + mc::quoted(document));
		char root = document[0];
		for (size_t end = 0; end < document.size(); end++) {
			bool reported = it.read(std::string_view(document).substr(0, end));
			if (end > 0 && (root == '{' || root == '[' || root == '"') && std::string_view(it.name) != "skipping")
				MC_CHECK(reported, "truncated", "no error reported when reading only " + mc::quoted(document.substr(0, end)));
		}
	}
	mc::validated();
});

static const char* special[] = {"\"", "{", "}", "[", "]", ",", ":", "\\", "u", " ", "\n", "0", "-", ".", "e", "n", "t", "f", "a", "/", std::string_view("\0").data(), "\x7f", "\xff", "\xc3", "+"};
// One mutation with every byte, two with special characters
static mc::Register mutated("documents with one byte changed", kinds, [] (int u) {
	auto& it = all()[u];
	auto& document = mc::pick(it.documents);
	int at = mc::choose(int(document.size()) + 1);
	int byte = mc::choose(256);
	for (int how = 0; how < 2; how++) {
		std::string text = document;
		if (how == 0) text.insert(at, 1, char(byte));
		else if (at < int(text.size())) text[at] = char(byte);
		mc::describe(std::string(it.name) + " from " + mc::quoted(text));
		it.read(text);
	}
	mc::validated();
});
static std::string mutate(std::string text, int& last) {
	int at = mc::choose(int(text.size()) + 1 - last) + last;
	last = at;
	int what = mc::choose(int(std::size(special)) * 2 + 5);
	if (what < int(std::size(special))) { text.insert(at, special[what][0] ? special[what] : std::string(1, '\0')); return text; }
	what -= std::size(special);
	if (at >= int(text.size())) return text;
	if (what < int(std::size(special))) { text[at] = special[what][0]; return text; }
	what -= std::size(special);
	switch (what) {
	case 0: text.erase(at, 1); break;
	case 1: text.erase(at, 2); break;
	case 2: text.erase(at); break;
	case 3: text.insert(at, text.substr(at, 1)); break;
	case 4: text.insert(at, text.substr(at)); break;
	}
	return text;
}
static mc::Register twice("documents with two changes", kinds * 5, [] (int u) {
	auto& it = all()[u / 5];
	if (u % 5 >= int(it.documents.size())) return;
	auto& document = it.documents[u % 5];
	if (!mc::thorough() && document.size() > 24) { // Every first change with a few second ones
		int last = 0;
		std::string text = mutate(document, last);
		int cut = mc::choose(int(text.size()) + 1);
		text.resize(cut);
		mc::describe(std::string(it.name) + " from " + mc::quoted(text));
		it.read(text);
	} else {
		int last = 0;
		std::string text = mutate(mutate(document, last), last);
		mc::describe(std::string(it.name) + " from " + mc::quoted(text));
		it.read(text);
	}
	mc::validated();
});

// All short sequences of tokens
static const char* tokens[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\":", "1", "-1.5e3", "true", "nul", "null", "\"", "\\", "\"\\u00", " ", "x", "\"first\"", "1e999", "99999999999999999999"};
static mc::Register sequences("sequences of tokens", int(std::size(tokens)), [] (int u) {
	int length = 1 + mc::choose(mc::thorough() ? 5 : 4);
	std::string text = tokens[u];
	for (int i = 1; i < length; i++) text += mc::pick(tokens);
	mc::describe(mc::quoted(text));
	for (auto& it : all()) {
		mc::describe(std::string(it.name) + " from " + mc::quoted(text));
		it.read(text);
	}
	mc::validated();
});
// All byte sequences up to 2 bytes
static mc::Register bytes("sequences of bytes", 256, [] (int u) {
	std::string text(1, char(u));
	int second = mc::choose(257);
	if (second < 256) text += char(second);
	for (auto& it : all()) {
		mc::describe(std::string(it.name) + " from " + mc::quoted(text));
		it.read(text);
	}
	mc::validated();
});
// Depth and length without limits
static mc::Register huge("deep and long documents", kinds, [] (int u) {
	static const char* openings[] = {"[", "{", "{\"a\":", "[{\"a\":[", "\\", "\"", "\"\\", "9", "0", "-", "1.", "1e", " ", ",", ":", "{\"z\":[", "{\"a\":\"", "[\"", "{\"zz\":{\"a\":", "null", "true "};
	static const size_t counts[] = {100, 5000, 60000};
	auto& it = all()[u];
	static const char* before[] = {"", "{\"a\":", "{\"zz\":", "[", "\""};
	std::string text = mc::pick(before);
	const char* repeated = mc::pick(openings);
	size_t count = mc::pick(counts);
	for (size_t i = 0; i < count; i++) text += repeated;
	mc::describe(std::string(it.name) + " from " + mc::quoted(text, 40));
	bool reported = it.read(text);
	if (text.starts_with("{\"z") && u == 0)
		MC_CHECK(reported, "deep", "no error when reading " + mc::quoted(text, 100));
	mc::validated();
});
