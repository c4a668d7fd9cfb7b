// C12: Malformed HTTP input is contained
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
using namespace httpzoo;

struct Plain {
	Getter getter;
	Poster poster;
	HttpServer<> server{getter, poster};
	decltype(server.getSession()) session = server.getSession();
	using Session = decltype(session);
};
struct Rpc {
	Calc calc;
	DynamicRpcObject root;
	SimpleGetResponder page;
	RpcGetResponder<> getter{page, setUp()};
	HtmlPostResponder<> forms{root};
	JsonRpcServerProtocol<> json{root};
	HttpServer<> formServer{getter, forms};
	HttpServer<> jsonServer{getter, json};
	using Session = decltype(formServer.getSession());
	IRemoteCallable& setUp() {
		page.resource = "page";
		root.add("calc", RpcLambdaHolder::nonOwning(calc));
		return root;
	}
};

// Whatever is sent, this has to hold. Returns what was sent in response
template <typename Session>
static std::string contained(Session& session, const std::string& stream, const std::vector<size_t>& cuts, Fed<Session>& fed) {
	calls.clear();
	fed.watch = [&] (size_t callsBefore, std::string_view output, ServerReaction reaction) {
		ResponseParser parsed(output);
		MC_CHECK(parsed.problem.empty(), "malformed-response", parsed.problem + " in " + mc::quoted(output, 200));
		MC_CHECK(parsed.responses.size() <= 1, "responses", "a request got more responses");
		MC_CHECK(reaction != ServerReaction::OK || parsed.responses.size() == 1, "responses", "a request got no response");
		// Bad requests must not be passed
		if (calls.size() != callsBefore) {
			MC_CHECK(calls.size() == callsBefore + 1, "calls", "one request was passed several times");
			MC_CHECK(reaction != ServerReaction::READ_ON, "incomplete-called", "an incomplete request was passed");
			MC_CHECK(!output.empty(), "malformed-called", "a request that was not responded was passed");
			MC_CHECK(parsed.responses.empty() || parsed.responses[0].status != 501, "malformed-called", "a request that was refused was passed");
		}
	};
	fed.feed(session, stream, cuts);
	if (!fed.broken) mc::validated();
	return fed.output;
}
static std::vector<size_t> chunked(size_t total, size_t chunk) {
	std::vector<size_t> r;
	for (size_t i = chunk; i < total; i += chunk) r.push_back(i);
	return r;
}
// Runs it whole and in chunks
static void everyWay(const std::string& stream, size_t requestsBefore = 0, const std::string& answersBefore = "", int server = 0) {
	std::string outputs[3];
	size_t countCalls[3];
	bool dropped[3];
	for (int i = 0; i < 3; i++) {
		std::vector<size_t> cuts;
		if (i == 1) cuts = chunked(stream.size(), stream.size() > 400 ? 50 : 1);
		if (i == 2) cuts = {stream.size() / 2};
		auto act = [&] (auto& session) {
			Fed<std::decay_t<decltype(session)>> fed;
			outputs[i] = contained(session, stream, cuts, fed);
			countCalls[i] = calls.size();
			dropped[i] = fed.dropped;
			if (fed.broken || mc::failed()) return;
			MC_CHECK(outputs[i].starts_with(answersBefore), "previous", "the requests before were answered " + mc::quoted(outputs[i], 200) + " instead of " + mc::quoted(answersBefore, 200));
			MC_CHECK(fed.consumed.size() >= requestsBefore || fed.dropped, "previous", "the requests before were not answered");
		};
		if (server == 0) {
			Plain setup;
			act(setup.session);
		} else {
			Rpc rpc;
			auto session = server == 1 ? rpc.formServer.getSession() : rpc.jsonServer.getSession();
			act(session);
		}
		if (mc::failed()) return;
	}
	for (int i = 1; i < 3; i++) {
		MC_CHECK(outputs[i] == outputs[0], "chunks-output", "the responses are " + mc::quoted(outputs[0], 200) + " or " + mc::quoted(outputs[i], 200) + " depending on chunks");
		MC_CHECK(countCalls[i] == countCalls[0], "chunks-calls", "the calls depend on chunks");
		MC_CHECK(dropped[i] == dropped[0], "chunks-dropped", "disconnecting depends on chunks");
	}
}

static const std::vector<std::string>& bases() {
	using namespace std::string_literals;
	static const std::vector<std::string> made = {
		"GET /k3 HTTP/1.1\r\n\r\n",
		"GET /u3?x=y HTTP/1.0\r\nHost: localhost\r\nConnection: close\r\n\r\n",
		"POST /k2 HTTP/1.1\r\nContent-Length: 4\r\nContent-Type: a/b\r\n\r\nbody",
		"POST /u2 HTTP/1.1\r\ncontent-type:x\r\ncontent-length:12\r\nX-Y:\tz\r\n\r\n\r\n\r\nGET / HT",
		"PUT /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc",
		"GET /n HTTP/2\r\nA: b\r\nContent-Length:1\r\n\r\n-",
	};
	return made;
}
static std::string answer(const std::string& stream) {
	Plain plain;
	calls.clear();
	Fed<Plain::Session> fed;
	fed.feed(plain.session, stream, {});
	return fed.output;
}
static const std::string prefix = "GET /k1 HTTP/1.1\r\n\r\n";
static const std::string& prefixAnswer() {
	static const std::string made = answer(prefix);
	return made;
}
static const std::string suffix = "POST /e HTTP/1.1\r\nContent-Length: 1\r\n\r\nz";

static mc::Register changedByte("every byte changed or inserted", 6 * 16, [] (int u) {
	std::string s = bases()[u / 16];
	size_t at = mc::choose(int(s.size()));
	char c = char(u % 16 * 16 + mc::choose(16));
	bool before = mc::choose(2);
	if (mc::choose(2)) s[at] = c;
	else s.insert(at, 1, c);
	std::string stream = (before ? prefix : "") + s + suffix;
	mc::describe(mc::quoted(stream));
	everyWay(stream, before, before ? prefixAnswer() : "");
});
// Pairs of changes
static const std::vector<std::string>& replacements() {
	using namespace std::string_literals;
	static const std::vector<std::string> made = {"", "\r", "\n", "\r\n", " ", ":", "\t", "\0"s, "\xff", "-", "9999999999", "0x", "/", "A", "\r\n\r\n", "4294967296", "2147483647", "2147483640", "+", "%", "?", "%2"};
	return made;
}
static mc::Register pairs("pairs of changes", 6 * 22, [] (int u) {
	std::string s = bases()[u / 22];
	size_t first = mc::choose(int(s.size()));
	size_t removed = mc::choose(2);
	std::string with = replacements()[u % 22];
	s = s.substr(0, first) + with + s.substr(std::min(first + removed, s.size()));
	size_t at = first + with.size();
	size_t second = at + mc::choose(int(s.size() - at) + 1);
	if (mc::thorough()) s = s.substr(0, second) + replacements()[mc::choose(22)] + s.substr(std::min(second + mc::choose(2), s.size()));
	else {
		static const int few[] = {0, 1, 2, 4, 5, 8, 9};
		int which = mc::choose(8);
		if (which == 7) s.resize(second);
		else s = s.substr(0, second) + replacements()[few[which]] + s.substr(std::min(second + 1, s.size()));
	}
	std::string stream = prefix + s + suffix;
	mc::describe(mc::quoted(stream));
	everyWay(stream, 1, prefixAnswer());
});
static mc::Register tokens("sequences of tokens", 19 * 19, [] (int u) {
	using namespace std::string_literals;
	static const std::string all[] = {"GET", "POST", "PUT", " ", "/k1", "HTTP/1.1", "\r\n", "\r", "\n", "Content-Length", "Content-Type", ":", "3", "-1", "99999999999999999999", "abc", "\t", "\0"s, "GET /k1 HTTP/1.1\r\n"};
	static const std::string start[] = {"", "GET /k1 HTTP/1.1\r\n", "POST /k2 HTTP/1.1\r\nContent-Length:"};
	std::string s = mc::pick(start) + all[u / 19] + all[u % 19];
	int length = mc::choose(mc::thorough() ? 4 : 3);
	for (int i = 0; i < length; i++) s += mc::pick(all);
	mc::describe(mc::quoted(s));
	everyWay(s);
});
static mc::Register shortOnes("all short inputs", 256, [] (int u) {
	std::string s(1, char(u));
	int more = mc::choose(257);
	if (more) s += char(more - 1);
	mc::describe(mc::quoted(s));
	everyWay(s);
	std::string t = prefix + s;
	everyWay(t, 1, prefixAnswer());
});
// Sizes of bodies
static mc::Register lengths("values of Content-Length", 60, [] (int u) {
	static const std::string values[] = {"", " ", "-1", "-0", "+1", "1", "2", "3", "01", "1 ", " 1", "1\t", "1,1", "1 1", "1x", "x", "0x1", "1.0", "1e1", "1-", "--1", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "-2147483648", "-2147483649", "-4294967295",
		"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "2147483646", "2147483600", "2147483500", "2147483520", "1\xff", "\xff", "one", "1;", "1\n", "\n1", "1\r", "null", "inf", "nan", "1_000", "1'000", "1\v", "\f1", "1:", ":1", "1\xa0", "%31", "\"1\"", "(1)", "0"};
	static_assert(std::size(values) == 60);
	static const std::string methods[] = {"GET", "POST", "PUT"};
	static const std::string rests[] = {"", "a", "ab", "abc", "GET /k1 HTTP/1.1\r\n\r\n"};
	std::string s = mc::pick(methods) + " /k2 HTTP/1.1\r\nContent-Length:" + (mc::choose(2) ? " " : "") + values[u] + "\r\n";
	if (mc::choose(2)) s += "Content-Length: 1\r\n";
	std::string body = mc::pick(rests);
	s += "\r\n" + body;
	mc::describe(mc::quoted(s));
	everyWay(prefix + s, 1, prefixAnswer());
});
// Missing parts of methods, parameters and bodies in real responders
static mc::Register rpc("malformed requests to methods", 2 * 12, [] (int u) {
	using namespace std::string_literals;
	static const std::string paths[] = {"", "/", "?", "/?", "x", "x?", "/calc", "/calc?", "/calc/", "/calc/add", "/calc/add?", "/calc/add/?"};
	static const std::string more[] = {"", "a", "a=", "a=5", "a=5&", "&", "=", "&&a=5", "a=x&b=y", "%", "%2", "%zz", "a=%", "a=5%", "a=%26%23", "a=%26%2399999999999%3b", "text=%26%23255%3", "a=" + std::string(3000, '9'), "\0"s, "\xff\xfe", "a=5&b=3&a=7", "{", "[", "{}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.add\",\"params\":{\"a\":1", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.fail\",\"params\":{\"value\":-1}}", "[[[[[", "[{},", "{\"id\":{}}", "{\"method\":\"\\u12", "null", "\"text"};
	std::string path = paths[u / 2];
	std::string s;
	int server = 1 + u % 2;
	static const std::string types[] = {"", "application/json", "application/json;"};
	switch (mc::choose(3)) {
	case 0: s = "GET " + path + mc::pick(more) + " HTTP/1.1\r\n\r\n"; break;
	case 1: {
		std::string body = mc::pick(more), type = mc::pick(types);
		s = "POST " + path + " HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\n" + (type.empty() ? "" : "Content-Type: " + type + "\r\n") + "\r\n" + body;
		break;
	}
	case 2: s = "POST " + path + mc::pick(more) + " HTTP/1.1\r\nContent-Length: 0\r\n\r\n"; break;
	}
	s += "GET / HTTP/1.1\r\n\r\n";
	mc::describe(mc::quoted(s));
	everyWay(s, 0, "", server);
});
static mc::Register jsonBytes("every byte of JSON-RPC and form requests changed", 16, [] (int u) {
	static const std::pair<std::string, std::string> requests[] = {{"application/json", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.add\",\"params\":{\"a\":1,\"b\":2}}"},
		{"application/json", "[{\"jsonrpc\":\"2.0\",\"method\":\"calc.note\",\"params\":{\"text\":\"x\"}}]"}, {"form", "a=%26%23256%3b5&b=-3"}};
	auto [type, body] = mc::pick(requests);
	int at = mc::choose(int(body.size()));
	char c = char(u * 16 + mc::choose(16));
	if (mc::choose(2)) body[at] = c;
	else body.resize(at);
	std::string s = "POST " + std::string(type == "form" ? "/calc/add" : "/") + " HTTP/1.1\r\nContent-Type: " + type + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body + "GET / HTTP/1.1\r\n\r\n";
	mc::describe(mc::quoted(s));
	everyWay(s, 0, "", type == "form" ? 1 : 2);
});
static mc::Register longOnes("long headers without an end", 8, [] (int u) {
	static const std::string pieces[] = {"A", " ", ":", "\t", "A:b\r\n", "A: b\r\n ", "\r\r", "%26"};
	static const int counts[] = {100, 5000, 20000};
	int count = mc::pick(counts);
	std::string s;
	static const std::string starts[] = {"", "GET /", "GET /k1 HTTP/1.1\r\n", "GET /k1 HTTP/1.1\r\nX", "GET /k1 HTTP/1.1\r\nX:", "POST /k1 HTTP/1.1\r\nContent-Length:", "POST /k1 HTTP/1.1\r\nContent-Length:1"};
	s = mc::pick(starts);
	for (int i = 0; i < count; i++) s += pieces[u];
	if (mc::choose(2)) s += "\r\n\r\n";
	mc::describe(mc::fmt("%zu bytes of ", s.size()) + mc::quoted(s, 80));
	Plain plain;
	Fed<Plain::Session> fed;
	contained(plain.session, s, {s.size() / 3}, fed);
});
