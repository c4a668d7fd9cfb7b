// C07: arguments in URLs and forms, from the client to the method and from an independent encoder
#include "bomba_http.hpp"
#include "rpczoo.hpp"
using namespace rpczoo;
using namespace std::string_literals;

struct Form : RpcObject<Form> {
	RpcMember<[] (std::string s = name("s"), int8_t a = name("a"), uint8_t b = name("b"), bool c = name("c")) { called("small", s, a, b, c); }> small = child<"small">;
	RpcMember<[] (int16_t a = name("a"), uint16_t b = name("b"), int32_t c = name("c"), uint32_t d = name("d")) { called("medium", a, b, c, d); }> medium = child<"medium">;
	RpcMember<[] (int64_t a = name("a"), uint64_t b = name("b"), std::string s = name("s")) { called("large", a, b, s); }> large = child<"large">;
	RpcMember<[] (float a = name("a"), double b = name("b"), bool c = name("c")) { called("floats", a, b, c); }> floats = child<"floats">;
	RpcMember<[] (std::string s = name("s"), std::string s1 = name("s1")) { called("strings", s, s1); }> strings = child<"strings">;
	RpcMember<[] (std::string odd = name("odd name&=+%ž")) { called("odd", odd); }> odd = child<"odd">;
};

struct Link : ITcpClient { // Connects a client to a server
	HttpServer<>::Session session;
	std::string request, response;
	explicit Link(HttpServer<>::Session session) : session(session) {}
	void writeRequest(std::span<char> written) override {
		request.assign(written.data(), written.size());
		send(request);
	}
	void send(std::string_view text) {
		response.clear();
		Exact exact(text);
		auto [reaction, size] = session.respond(exact.span(), [&] (std::span<const char> out) { response.append(out.data(), out.size()); });
		MC_CHECK(reaction == ServerReaction::OK && size == int64_t(text.size()), "server", "the server did not accept the request " + mc::quoted(text, 300));
	}
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char> input, bool identified)> reader) override {
		auto [reaction, got, size] = reader(std::span<char>(response), false);
		if (reaction != ServerReaction::OK) throw std::runtime_error("no response: " + response);
	}
};
struct World {
	Form provided;
	DummyGetResponder none;
	RpcGetResponder<> get;
	HtmlPostResponder<> post;
	HttpServer<> server;
	Link link;
	Form remote;
	HttpClient<> client;
	World() : get(none, provided), post(provided), server(get, post), link(server.getSession()), client(link, "host") {
		remote.setResponder(client);
	}
	// Sends it in a query and in a form
	void received(std::string_view method, std::string_view encoded, const std::string& log) {
		for (bool form : {false, true}) {
			calls.clear();
			if (form) link.send("POST /" + std::string(method) + mc::fmt(" HTTP/1.1\r\nContent-Length: %zu\r\n\r\n", encoded.size()) + std::string(encoded));
			else link.send("GET /" + std::string(method) + "?" + std::string(encoded) + " HTTP/1.1\r\n\r\n");
			MC_CHECK(calls.size() == 1 && calls[0] == log, form ? "form" : "query", mc::fmt("%zu calls, ", calls.size()) + (calls.empty() ? "" : calls[0]) + " instead of " + log + " from " + mc::quoted(encoded) + " response " + mc::quoted(link.response, 50));
			mc::step(mc::mix(mc::hash(encoded), form));
		}
		mc::validated();
	}
};
static World& world() { static World* made = new World(); return *made; }

template <typename M, typename... A>
void roundTrip(M Form::*member, const char* name, const A&... args) {
	World& w = world();
	std::string log = callText(name, args...);
	mc::describe(log);
	calls.clear();
	try {
		(w.remote.*member)(args...);
	} catch (std::exception& e) {
		mc::fail("call-exception", e.what());
		return;
	}
	MC_CHECK(calls.size() == 1 && calls[0] == log, "sent", mc::fmt("%zu calls, ", calls.size()) + (calls.empty() ? "" : calls[0]) + " instead of " + log + " in " + mc::quoted(w.link.request));
	size_t body = w.link.request.find("\r\n\r\n");
	if (body != std::string::npos) w.received(name, std::string_view(w.link.request).substr(body + 4), log);
}

// Strings
static std::string utf8(uint32_t c) { std::string r; StrictJson::utf8(r, c); return r; }
static mc::Register everyCharacter("every character", 0x440, [] (int u) {
	uint32_t from = u * 0x400;
	if (from >= 0xd800 && from < 0xe000) return;
	// Many in a string, and some alone
	std::string all;
	for (uint32_t c = from; c < from + 0x400; c++) all += utf8(c);
	roundTrip(&Form::strings, "strings", all, utf8(from + 0x3ff));
	int step = from < 0x800 ? 1 : 0x10;
	uint32_t c = from + mc::choose(0x400 / step) * step;
	roundTrip(&Form::strings, "strings", utf8(c), "a" + utf8(c) + "b" + utf8(c));
});
static const std::vector<std::string> pieces = {"&", "#", ";", "0", "38", "%", "+", " ", "=", "\0"s, "a", "é", "ž", "😀", "?", "/", "\r\n", "\x7f", "3", "b", "\"", "<", "x"};
static mc::Register strings("sequences of special characters", int(pieces.size()) * 5, [] (int u) {
	int length = 1 + u % 5;
	if (length == 5 && !mc::thorough()) return;
	int limit = length <= 3 ? int(pieces.size()) : length == 4 ? (mc::thorough() ? int(pieces.size()) : 13) : 10;
	std::string text = pieces[u / 5];
	for (int i = 1; i < length; i++) text += pieces[mc::choose(limit)];
	if (length <= 2) roundTrip(&Form::odd, "odd", text);
	roundTrip(&Form::strings, "strings", text, length < 3 ? text + "&#" : "");
});
static mc::Register combined("combinations of values", 40, [] (int u) {
	onlyValidUtf8 = true;
	int part = u / 4;
	static constexpr int parts = 10;
	switch (u % 4) {
	case 0: { auto& d = stringDomain(); auto s = d[mc::choose(int(d.size()))];
		if (part) return;
		auto a = Kit<int8_t>::gen(0); auto b = Kit<uint8_t>::gen(0); roundTrip(&Form::small, "small", s, a, b, Kit<bool>::gen(0)); break; }
	case 1: { auto& d = Kit<int16_t>::domain(); int i = mc::choose(int(d.size())); if (i % parts != part) return;
		auto b = Kit<uint16_t>::gen(0); auto c = Kit<int32_t>::gen(mc::thorough() ? 0 : 1); auto e = Kit<uint32_t>::gen(mc::thorough() ? 0 : 1); roundTrip(&Form::medium, "medium", d[i], b, c, e); break; }
	case 2: { auto& d = Kit<int64_t>::domain(); int i = mc::choose(int(d.size())); if (i % parts != part) return;
		auto b = Kit<uint64_t>::gen(0); roundTrip(&Form::large, "large", d[i], b, Kit<std::string>::gen(0)); break; }
	case 3: { auto& d = Kit<double>::domain(); int i = mc::choose(int(d.size())); if (i % parts != part) return;
		auto a = Kit<float>::gen(0); roundTrip(&Form::floats, "floats", a, d[i], Kit<bool>::gen(0)); break; }
	}
});
static mc::Register integers("limits of integers", 1, [] (int) {
	auto c = Kit<int32_t>::gen(0); auto d = Kit<uint32_t>::gen(0);
	roundTrip(&Form::medium, "medium", int16_t(-32768), uint16_t(65535), c, d);
});
static mc::Register exponents("doubles and floats of every exponent", 32, [] (int u) {
	static const uint64_t mantissas[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x123456789abcdull};
	uint64_t bits = uint64_t(u * 64 + mc::choose(64)) << 52 | mc::pick(mantissas) | uint64_t(mc::choose(2)) << 63;
	double v;
	memcpy(&v, &bits, sizeof(v));
	if (!std::isfinite(v)) return;
	float f = float(v);
	if (!std::isfinite(f)) f = 3;
	roundTrip(&Form::floats, "floats", f, v, true);
});

// Everything that means the same when received
static std::string escaped(unsigned c, bool upper) { return mc::fmt(upper ? "%%%02X" : "%%%02x", c); }
// Forms a character can take
static std::vector<std::string> forms(uint32_t c) {
	std::vector<std::string> r;
	bool special = c < 0x80 && (strchr("&+%=#?", int(c)) || c <= 0x20 || c == 0x7f);
	if (!special) r.push_back(utf8(c)); // Directly
	if (c == ' ') r.push_back("+");
	if (c == '=' || c == '?') r.push_back(utf8(c)); // Only separates what is before it
	if (c < 0x100) { r.push_back(escaped(c, false)); r.push_back(escaped(c, true)); }
	r.push_back("%26%23" + std::to_string(c) + "%3b");
	r.push_back("%26%23" + std::to_string(c) + "%3B");
	return r;
}
static const std::vector<uint32_t> characters = {'a', '0', ' ', '&', '#', ';', '+', '%', '=', 0xe9, 0xff, 0x17e, 0x1f600, 0, '3', 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff};
static mc::Register receivedStrings("strings received in all forms", int(characters.size()) * 3, [] (int u) {
	std::string text, encoded;
	int length = 1 + u % 3;
	for (int i = 0; i < length; i++) {
		uint32_t c = i == 0 ? characters[u / 3] : length == 3 && !mc::thorough() ? characters[mc::choose(11)] : mc::pick(characters);
		auto all = forms(c);
		// An entity is what these would form together
		text += utf8(c);
		encoded += mc::pick(all);
	}
	// Characters that happen to form an entity are another string
	std::string check = encoded;
	for (char& it : check) if (it >= 'A' && it <= 'F') it += 32;
	std::string decoded;
	{ // Reference decoder
		for (size_t i = 0; i < check.size(); i++) {
			if (check[i] == '+') decoded += ' ';
			else if (check[i] == '%') {
				if (check.compare(i, 6, "%26%23") == 0) {
					size_t end = i + 6;
					while (end < check.size() && isdigit((unsigned char)check[end])) end++;
					if (end > i + 6 && check.compare(end, 3, "%3b") == 0) {
						decoded += utf8(atoi(check.c_str() + i + 6));
						i = end + 2;
						continue;
					}
				}
				decoded += utf8(strtol(check.substr(i + 1, 2).c_str(), nullptr, 16));
				i += 2;
			} else decoded += encoded[i];
		}
	}
	mc::describe(mc::quoted(encoded));
	world().received("strings", "s=" + encoded + "&s1=" + encoded, callText("strings", decoded, decoded));
	world().received("strings", encoded + "=x&s1=" + encoded, callText("strings", std::string(), decoded)); // Unknown name, mostly
});
static mc::Register layout("order of fields, unknown and absent ones", 24 * 2, [] (int u) {
	// All orders of 4 fields, each absent, empty, usual or escaped, with unknown ones anywhere
	static const std::vector<std::string> unknown = {"", "&", "x=1&", "s2=5&", "S=abc&", "=&", "a&", "b1=%26%23&", "%=%&", "=5&", "c+=1&", "u=%zz&", "very=long%26s%3Dnothing&", "xs=%26s=6&", "&&", "u=%26%2399999999999%3b&", "u=%26%23&", "u=%2&"};
	std::vector<int> order = {0, 1, 2, 3};
	for (int i = 0; i < u / 2; i++) std::next_permutation(order.begin(), order.end());
	std::string values[4];
	static const int variants[] = {4, 3, 3, 3};
	std::string s;
	int8_t a = 0;
	uint8_t b = 0;
	bool c = false;
	std::string encoded;
	int at = mc::choose(4);
	std::string extra = mc::pick(unknown);
	bool bare = extra == "a&"; // It's a value of a known name
	if (bare) extra = "a1&";
	for (int i = 0; i < 4; i++) {
		if (i == at) encoded += extra;
		int how = mc::choose(variants[order[i]]);
		if (how == 0) continue; // Absent
		std::string value;
		switch (order[i]) {
		case 0:
			if (how == 1) value = "s=text", s = "text";
			if (how == 2) value = "s=", s = "";
			if (how == 3) value = "%73=%26+b%3d", s = "& b=";
			break;
		case 1: value = how == 1 ? "a=-128" : "%61=%2d1"; a = how == 1 ? -128 : -1; break;
		case 2: value = how == 1 ? "b=255" : "b=%32"; b = how == 1 ? 255 : 2; break;
		case 3: value = how == 1 ? "c=true" : "c=false"; c = how == 1; break;
		}
		encoded += value + "&";
	}
	if (u % 2 && !encoded.empty()) encoded.pop_back(); // The last separator is not necessary
	mc::describe(mc::quoted(encoded));
	world().received("small", encoded, callText("small", s, a, b, c));
});
static mc::Register unknownFields("unknown fields holding anything", 12, [] (int u) {
	static const char* tokens[] = {"%", "2", "6", "%26", "%23", "3", "%3b", "=", "+", "&", "x", "\xff"};
	std::string junk = tokens[u];
	int length = 1 + mc::choose(mc::thorough() ? 5 : 4);
	for (int i = 1; i < length; i++) junk += mc::pick(tokens);
	mc::describe(mc::quoted(junk));
	world().received("strings", "unknown=" + junk + "&s1=after&s=x", callText("strings", std::string("x"), std::string("after")));
	world().received("strings", "s1=before&s=x&" + junk, callText("strings", std::string("x"), std::string("before")));
});
static mc::Register reflected("objects written and read directly", 6, [] (int u) {
	// Without any server
	auto run = [] <typename T> (const T& value) {
		std::string text;
		GeneralisedBuffer* none = nullptr;
		(void)none;
		ExpandingBuffer<16> buffer;
		typename HtmlMessageEncoding<>::Output out(buffer);
		T copy{};
		copy.a = value.a;
		copy.b = value.b;
		TypedSerialiser<T>::serialiseMember(out, copy, noFlags);
		text = std::string_view(buffer);
		mc::describe(Kit<T>::name() + " " + mc::quoted(text, 200));
		Exact exact(text);
		T read{};
		typename HtmlMessageEncoding<>::Input in(exact.view());
		TypedSerialiser<T>::deserialiseMember(in, read, noFlags);
		MC_CHECK(in.good && Kit<T>::same(value, read), "object", "read " + show(Kit<T>::node(read)).substr(0, 200) + " from " + mc::quoted(text, 200));
		mc::step(text);
		mc::validated();
	};
	onlyValidUtf8 = true;
	switch (u) {
	case 0: run(Kit<Two<std::string, std::string>>::gen(-1)); break;
	case 1: run(Kit<Two<int64_t, uint64_t>>::gen(-1)); break;
	case 2: run(Kit<Two<double, float>>::gen(-1)); break;
	case 3: run(Kit<Two<bool, int8_t>>::gen(-1)); break;
	case 4: run(Kit<Two<uint16_t, std::string>>::gen(-1)); break;
	case 5: run(Kit<Two<int32_t, uint32_t>>::gen(-1)); break;
	}
});
